#!/usr/bin/env python3
"""newseed.py FILE..: plants the bugs described in each FILE (a Python file defining SEEDS, see
tools/seeds_*.py), and writes /verif/seeded/<id>/ after confirming that the patch applies to
/repo's HEAD, builds, passes the stable tests, fails its demonstration and passes it without."""
import json, os, re, runpy, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(VERIF, "tools", "seedlib")
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", [])))


def sh(c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)


def make(s):
    d = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    assert sh(["git", "-C", "/repo", "status", "--porcelain"]).stdout == ""
    for f, old, new in s["edits"]:
        t = open("/repo/" + f).read()
        if t.count(old) != 1:
            return "%s: %d matches in %s of %r" % (s["id"], t.count(old), f, old)
        open("/repo/" + f, "w").write(t.replace(old, new))
    diff = sh(["git", "-C", "/repo", "diff"]).stdout
    open(d + "/patch.diff", "w").write(diff)
    sh(["git", "-C", "/repo", "checkout", "--", "."])
    for f, old, new in s["edits"]:
        base = set(x.strip() for x in sh(["git", "-C", "/repo", "show", BASE + ":" + f]).stdout.split("\n"))
        removed = [x[1:].strip() for x in diff.split("\n") if x.startswith("-") and not x.startswith("---")]
    bad = [x for x in removed if x and not any(x in sh(["git", "-C", "/repo", "show", BASE + ":" + f]).stdout for f, _, _ in s["edits"])]
    if bad:
        return "%s: not original lines: %r" % (s["id"], bad)
    for f in s.get("lib", ["lib.sh", "demo.sh", "seedlib.h", "seedhttp.h", "vclock.cc", "flat_hash_map.hpp"]):
        shutil.copy(os.path.join(LIB, f), d)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cc", "w").write(s["demo"].lstrip())
    open(d + "/build.args", "w").write('FLAGS=(%s)\nSRCS="%s"\n%s' % (s.get("flags", ""), s["srcs"], s.get("args", "")))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return None


def confirm(i):
    d = os.path.join(VERIF, "seeded", i)
    tmp = "/tmp/seeddemo." + i
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp)
    for f in ("patch.diff", "meta.json"):
        os.remove(tmp + "/" + f)
    try:
        r = sh(["bash", "/opt/vp/build.sh"])
        ok = sh(["bash", tmp + "/demo.sh"], cwd="/repo")
        if ok.returncode != 0:
            return "%s: demo fails on the unchanged tree: %s %s" % (i, ok.stdout[-1500:], ok.stderr[-1500:])
        a = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
        if a.returncode:
            return "%s: patch does not apply" % i
        try:
            out = "/tmp/seed.%s.json" % i
            t = sh(["bash", "/opt/vp/test.sh", out])
            p = set(json.load(open(out))["passed"])
            os.remove(out)
            if stable - p:
                return "%s: tests fail: %s %s" % (i, sorted(stable - p)[:5], t.stdout[-300:] if not p else "")
            bad = sh(["bash", tmp + "/demo.sh"], cwd="/repo")
            if bad.returncode == 0:
                return "%s: demo passes with the patch" % i
            return "%s: ok (demo: rc=%d %s)" % (i, bad.returncode, (bad.stdout + bad.stderr)[-300:].strip())
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."])
            sh(["bash", "/opt/vp/build.sh"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    only = None
    files = []
    for a in sys.argv[1:]:
        if a.endswith(".py"):
            files.append(a)
        else:
            only = (only or set()) | {a}
    ids = []
    for f in files:
        for s in runpy.run_path(f)["SEEDS"]:
            if only and s["id"] not in only:
                continue
            e = make(s)
            if e:
                print(e, flush=True)
            else:
                ids.append(s["id"])
    if not files:
        ids = sorted(only or os.listdir(os.path.join(VERIF, "seeded")))
    for i in ids:
        print(confirm(i), flush=True)


main()
