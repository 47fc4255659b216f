"""Builds harness binaries from /repo's current working tree (never cached across
changed content: every object is keyed by the content of all files it read)."""
import hashlib, json, os, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARN = os.path.join(VERIF, "harness")


class BuildError(Exception):
    pass


def _sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
    return r.returncode, r.stdout, r.stderr


def _fhash(path, memo={}):
    try:
        st = os.stat(path)
        k = (path, st.st_mtime_ns, st.st_size)
        if k not in memo:
            memo[k] = hashlib.sha256(open(path, "rb").read()).hexdigest()
        return memo[k]
    except OSError:
        return "absent"


def _cached(out, cmd, deps_file=None, extra_deps=()):
    """True when `out` exists and was made by cmd from files with the same content."""
    meta = out + ".meta"
    try:
        m = json.load(open(meta))
    except Exception:
        return False
    if m["cmd"] != cmd or not os.path.exists(out):
        return False
    return all(_fhash(p) == h for p, h in m["deps"].items())


def _record(out, cmd, deps):
    json.dump({"cmd": cmd, "deps": {d: _fhash(d) for d in deps}}, open(out + ".meta", "w"))


def _parse_d(path):
    txt = open(path).read().replace("\\\n", " ")
    deps = txt.split(":", 1)[1].split()
    return [d for d in deps if not d.startswith("/usr/")]


def compile_tu(src, out, flags, cxx="g++"):
    cmd = [cxx, "-std=c++17"] + flags + ["-MMD", "-MF", out + ".d", "-c", src, "-o", out]
    if _cached(out, cmd):
        return
    os.makedirs(os.path.dirname(out), exist_ok=True)
    rc, so, se = _sh(cmd)
    if rc != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, se[-4000:]))
    _record(out, cmd, _parse_d(out + ".d"))


def link(objs, out, flags, libs, cxx="g++"):
    cmd = [cxx] + flags + objs + ["-o", out] + libs
    if _cached(out, cmd):
        return
    rc, so, se = _sh(cmd)
    if rc != 0:
        raise BuildError("linking %s failed:\n%s" % (out, se[-4000:]))
    _record(out, cmd, objs)


GENS = [("gen_perc_bucket_tags", "percentile_bucket_tags"),
        ("gen_perc_bucket_values", "percentile_bucket_values"),
        ("gen_valid_chars", "valid_chars")]


def gen_incs():
    """The generated .inc files, made by the repository's own generators."""
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)

    def one(pair):
        tool, inc = pair
        src = os.path.join(REPO, "tools", tool + ".cc")
        out = os.path.join(gen, inc + ".inc")
        cmd = ["gen", src]
        if _cached(out, cmd):
            return
        exe = os.path.join(gen, tool)
        rc, so, se = _sh(["g++", "-std=c++17", "-DFMT_SHARED", "-O0", src, "-o", exe, "-lfmt"])
        if rc != 0:
            raise BuildError("generator %s: %s" % (tool, se[-2000:]))
        rc, so, se = _sh([exe])
        if rc != 0 or not so:
            raise BuildError("generator %s exited %d" % (tool, rc))
        # the generators open /dev/stdout themselves
        if not os.path.exists(out) or open(out).read() != so:
            open(out, "w").write(so)
        _record(out, cmd, [src])
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(one, GENS))
    return gen


BASE = ["-DSPDLOG_COMPILED_LIB", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DFMT_SHARED",
        "-fno-omit-frame-pointer"]
VARIANTS = {
    "asan": (["-O0", "-g1", "-fsanitize=address"], ["-fsanitize=address", "-rdynamic"]),
    # instrumented as for the thread sanitizer, but linked with harness/dsched.cc instead of its runtime
    "sched": (["-O1", "-g1", "-fsanitize=thread", "-Wno-tsan", "-DASIO_DISABLE_STD_ALIGNED_ALLOC"], ["-rdynamic"]),
    "plain": (["-O1", "-g1"], ["-rdynamic"]),
}


def absl_libs():
    d = "/usr/lib/x86_64-linux-gnu/"
    return sorted(d + f for f in os.listdir(d) if f.startswith("libabsl_") and f.endswith(".so"))


def _glob(d, exclude=()):
    p = os.path.join(REPO, d)
    return sorted(os.path.join(d, f) for f in os.listdir(p)
                  if f.endswith(".cc") and not f.endswith("_test.cc") and f not in exclude)


# groups of repository translation units
def group(name):
    if name == "meters":   # everything that needs neither registry nor http
        skip = {"http_server.cc", "netflix_config.cc", "test_utils.cc", "registry.cc", "http_client.cc", "sample_config.cc"}
        return [s for s in _glob("spectator", ()) if os.path.basename(s) not in skip]
    if name == "core":     # registry, publisher, http client
        skip = {"http_server.cc", "netflix_config.cc", "test_utils.cc"}
        return [s for s in _glob("spectator", ()) if os.path.basename(s) not in skip] + _glob("util") + \
            ["metatron/metatron_sample.cc"]
    if name == "main":     # the daemon itself, with the harness's configuration
        return [s for s in group("core") if os.path.basename(s) != "sample_config.cc"] + _glob("server") + _glob("admin") + ["bin/spectatord_main.cc"]
    if name == "server":
        return _glob("server")
    if name == "proc":
        return ["server/proc_utils.cc"] + _glob("util")
    if name == "admin":
        return _glob("admin")
    raise KeyError(name)


LIBS = ["-lspdlog", "-lfmt", "-lcurl", "-lssl", "-lcrypto", "-lz", "-lxxhash", "-lpthread"]
POCO = ["-lPocoNet", "-lPocoJSON", "-lPocoFoundation"]


# not instrumented in the variant "sched"
RUNTIME = {"dsched.cc", "vclock.cc"}


def build(exe, harness, groups, variant="asan", extra=(), poco=False):
    """harness: list of files in /verif/harness; groups: repository TU groups."""
    gen = gen_incs()
    cf, lf = VARIANTS[variant]
    inc = ["-I", gen, "-I", os.path.join(HARN, "shim", "include"), "-I", REPO, "-I", HARN]
    flags = BASE + cf + list(extra) + inc
    jobs = []
    srcs = []
    for g in groups:
        for s in group(g):
            if s not in srcs:
                srcs.append(s)
    for s in srcs:
        jobs.append((os.path.join(REPO, s), os.path.join(BUILD, variant, s + ".o")))
    for h in harness:
        jobs.append((os.path.join(HARN, h), os.path.join(BUILD, variant, "h_" + h + ".o")))
    # big ones first
    heavy = ("spectatord.cc", "registry.cc", "admin_server.cc", "http_client.cc", "_server.cc", "drv")
    jobs.sort(key=lambda j: 0 if any(h in j[0] for h in heavy) else 1)
    os.makedirs(os.path.join(BUILD, variant), exist_ok=True)
    for _, o in jobs:
        os.makedirs(os.path.dirname(o), exist_ok=True)
    errs = []

    def one(j):
        try:
            plain = variant == "sched" and os.path.basename(j[0]) in RUNTIME
            compile_tu(j[0], j[1], [f for f in flags if f != "-fsanitize=thread"] if plain else flags)
        except BuildError as e:
            errs.append(e)
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(one, jobs))
    if errs:
        raise errs[0]
    out = os.path.join(BUILD, variant, exe)
    link([o for _, o in jobs], out, lf, absl_libs() + LIBS + ["-ldl"] + (POCO if poco else []))
    return out
