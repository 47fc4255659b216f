#!/usr/bin/env python3
"""mutate.py CHECK[,CHECK..] [-R] PATCH..: runs checks against scratch copies of /repo with a patch
applied each (-R: reverted; a commit name stands for its patch). Development aid, no check uses it."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(checks, patch, rev):
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        r = os.path.join(d, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        if os.path.exists(patch):
            text = open(patch).read()
        else:
            text = subprocess.run(["git", "-C", "/repo", "show", patch], capture_output=True, text=True, check=True).stdout
        p = subprocess.run(["git", "-C", r, "apply"] + (["-R", "-3"] if rev else []), input=text, text=True, capture_output=True)
        if p.returncode:
            return "%s: does not apply: %s" % (patch, p.stderr[-300:])
        out = []
        for c in checks:
            e = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=os.path.join(d, "build"))
            q = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), c], capture_output=True, text=True, env=e)
            why = [l for l in q.stdout.split("\n") if l.startswith("REJECTED")] or [q.stderr[-300:] if q.returncode != 0 else ""]
            out.append("  %s: rc=%d %s" % (c, q.returncode, why[0][:400]))
        return "%s\n%s" % (patch, "\n".join(out))
    finally:
        shutil.rmtree(d)


args = sys.argv[2:]
rev = "-R" in args
for a in args:
    if a != "-R":
        print(run(sys.argv[1].split(","), a, rev), flush=True)
