"""Runs TLC on the modules in /verif/spec and collects what the specification prints."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ModelError(Exception):
    pass


class Res:
    def __init__(s):
        s.out = []       # decoded @@ lines
        s.states = 0     # distinct (bfs) or checked (simulation)
        s.transitions = 0
        s.raw = ""
        s.diameter = 0
        s.violated = None


def run(module, body, cfg, mode="bfs", num=100, depth=20, seed=1, workers=1, timeout=600,
        heap="3g", allow_violation=False, props=(), extra_args=(), files=()):
    """module: name of a spec module to extend; body: TLA+ definitions of the MC module;
    cfg: text of the config."""
    work = tempfile.mkdtemp(prefix="tlc_", dir=_workdir())
    try:
        mc = "MC"
        for f, text in files:
            open(os.path.join(work, f), "w").write(text)
        open(os.path.join(work, mc + ".tla"), "w").write(
            "---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (mc, module, body))
        open(os.path.join(work, mc + ".cfg"), "w").write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap, "-DTLA-Library=" + SPEC,
               "-Djava.io.tmpdir=" + work] + list(props) + ["-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", os.path.join(work, "meta"), "-config", mc + ".cfg"]
        if mode == "sim":
            cmd += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
        cmd += list(extra_args) + [mc + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=work, capture_output=True, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise ModelError("TLC timed out after %ss on %s" % (timeout, module))
        r = Res()
        r.raw = p.stdout
        for line in p.stdout.splitlines():
            if line.startswith('"@@'):
                r.out.append(json.loads(json.loads(line)[2:]))
        m = re.search(r"^([\d,]+) states generated, ([\d,]+) distinct states found", p.stdout, re.M)
        if m:
            r.transitions, r.states = (int(x.replace(",", "")) for x in m.groups())
        m = re.search(r"The number of states generated: ([\d,]+)", p.stdout)
        if m:
            r.states = r.transitions = int(m.group(1).replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", p.stdout)
        if m:
            r.diameter = int(m.group(1))
        if p.returncode != 0:
            if allow_violation and p.returncode in (10, 11, 12, 13):
                r.violated = p.returncode
                return r
            txt = "\n".join(l for l in p.stdout.splitlines()
                            if not l.startswith(('"@@', "Parsing", "Semantic", "Linting")))
            raise ModelError("TLC exit %d on %s:\n%s\n%s" % (p.returncode, module, txt[-6000:], p.stderr[-1500:]))
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _workdir():
    d = os.path.join(VERIF, "build", "work")
    os.makedirs(d, exist_ok=True)
    return d


def run_many(jobs, par=6):
    """jobs: list of kwargs for run(); results in order."""
    with ThreadPoolExecutor(par) as ex:
        return list(ex.map(lambda k: run(**k), jobs))


def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v) if v >= 0 else "(-%d)" % -v
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        if not v:
            return "<<>>"
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)
