"""Runner shared by all checks: evidence, violations, known findings, driver processes."""
import json, math, os, subprocess, sys, time, traceback, threading, queue, re
from concurrent.futures import ThreadPoolExecutor
from . import build as B, tlc as T

VERIF = B.VERIF


class Rejected(Exception):
    """An observed execution that the specification does not allow."""
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class Ctx:
    def __init__(s, pid, level):
        s.pid, s.level = pid, level
        s.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        s.tier = os.environ.get("VERIF_TIER", "quick")
        s.thorough = s.tier == "thorough"
        s.t0 = time.time()
        s.states = s.transitions = s.traces = 0
        s.evaluations = 0
        s.samples = []
        s.notes = {}
        s.assumptions = []
        s.known = load_known(pid)
        s.known_hit = {}
        s.violations = 0
        s.distinct = set()

    def scale(s, quick, thorough):
        return thorough if s.thorough else quick

    def add_model(s, res):
        rs = res if isinstance(res, list) else [res]
        for r in rs:
            s.states += r.states
            s.transitions += r.transitions

    def sample(s, x):
        if len(s.samples) < 3:
            t = json.dumps(x)
            s.samples.append(x if len(t) < 4000 else t[:4000] + "...")

    def log(s, *a):
        print("[%s %6.1fs]" % (s.pid, time.time() - s.t0), *a, file=sys.stderr, flush=True)


def load_known(pid):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def evidence(ctx, cov):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    e = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=ctx.level, coverage=cov,
             assumptions=ctx.assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=ctx.violations)
    json.dump(e, open(os.path.join(d, ctx.pid + ".json"), "w"), indent=1)


def coverage(ctx):
    c = dict(ctx.notes)
    c["samples"] = ctx.samples or ["(none)"]
    if ctx.level == "model_checking":
        c.update(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces)
    else:
        c.update(evaluations=ctx.evaluations, distinct_nontrivial=len(ctx.distinct))
    return c


def main(pid, level, fn):
    try:
        for attempt in (1, 2):
            ctx = Ctx(pid, level)
            try:
                fn(ctx)
            except Rejected as r:
                # reported only when a second run repeats it
                ctx.log("rejected (run %d): %s" % (attempt, r.what))
                if attempt == 1:
                    first = r
                    continue
                ctx.violations = 1
                d = os.path.join(B.BUILD, "replay")
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, pid + ".json")
                json.dump(dict(property=pid, what=r.what, replay=r.replay, first_run=first.what), open(path, "w"), indent=1, default=str)
                evidence(ctx, coverage(ctx))
                print("REJECTED:", r.what)
                print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
                return 1
            if attempt > 1:
                ctx.notes["unrepeated_rejection"] = first.what
            break
        for key, what in ctx.known:
            print("KNOWN-FINDING: property=%s %s%s" % (pid, what, "" if key in ctx.known_hit else " (not exercised by this run)"))
        evidence(ctx, coverage(ctx))
        ctx.log("ok: states=%d transitions=%d traces=%d" % (ctx.states, ctx.transitions, ctx.traces))
        return 0
    except (B.BuildError, T.ModelError) as e:
        print("ERROR:", e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


# ---------------------------------------------------------------- drivers

class Crash(Exception):
    def __init__(self, rc, err):
        super().__init__("driver died (rc=%s): %s" % (rc, summarize(err)))
        self.err = err


def summarize(err):
    for pat in (r"ERROR: (?:Address|Leak|Thread)Sanitizer.*", r"terminate called.*", r".*Assertion.*", r"ERROR:.*",
                r"SCHED: .*"):
        m = re.search(pat, err)
        if m:
            return m.group(0)[:300]
    return err.strip()[-300:]


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0",
            "LSAN_OPTIONS": "exitcode=78"}


def drive(exe, cases, args=(), par=8, timeout=120, env=None, cwd=None, chunk=None):
    """Runs every case (a JSON value) through driver processes: each prints one line per case.
    A case on which the process died or hung yields {"crash": text}."""
    results = [None] * len(cases)
    n = len(cases)
    if n == 0:
        return results
    par = max(1, min(par, n))
    chunk = chunk or max(1, (n + par - 1) // par)
    chunks = [list(range(i, min(n, i + chunk))) for i in range(0, n, chunk)]
    e = dict(os.environ)
    e.update(ASAN_ENV)
    e.update(env or {})

    def feed(idx):
        rest = list(idx)
        crashes = 0
        while rest:
            inp = "".join(json.dumps(cases[i]) + "\n" for i in rest)
            try:
                p = subprocess.run([exe] + list(args), input=inp, capture_output=True, text=True,
                                   timeout=timeout, env=e, cwd=cwd, errors="replace")
                out, err, rc, hung = p.stdout, p.stderr, p.returncode, False
            except subprocess.TimeoutExpired as t:
                out = (t.stdout or b"").decode(errors="replace") if isinstance(t.stdout, bytes) else (t.stdout or "")
                err, rc, hung = "timeout after %ss" % timeout, -1, True
            lines = [l for l in out.split("\n") if l.startswith("@R ")]
            done = 0
            for l in lines:
                try:
                    results[rest[done]] = json.loads(l[3:])
                except Exception:
                    break
                done += 1
                if done >= len(rest):
                    break
            if done == len(rest) and rc == 0:
                return
            if done == len(rest):
                results[rest[-1]] = {"crash": "after the last case: " + summarize(err), "stderr": err[-3000:]}
                return
            results[rest[done]] = {"crash": ("hang: " if hung else "") + summarize(err) + " rc=%s" % rc, "stderr": err[-3000:], "hang": hung}
            rest = rest[done + 1:]
            crashes += 1
            if crashes >= 2:   # enough: the check reports the first one
                for i in rest:
                    results[i] = {"skipped": True}
                return
    with ThreadPoolExecutor(par) as ex:
        list(ex.map(feed, chunks))
    return results


# ---------------------------------------------------------------- comparing

BASE = [0]      # seconds between the epoch and time zero of the family being compared


def num(v):
    """Decodes a number as the specification writes it."""
    if isinstance(v, dict):
        if "w" in v:      # 16-bit limbs, most significant first
            x = 0
            for l in v["w"]:
                x = x * 65536 + l
            return float(x)
        if "s" in v:
            return float(v["s"])
        if "b" in v:
            return v["n"] / v["d"] + v["b"] * BASE[0]
        if "d" in v:
            return v["n"] / v["d"]
        if "e" in v:
            return v["n"] * 10.0 ** v["e"] if v["e"] >= 0 else v["n"] / 10.0 ** (-v["e"])
        raise ValueError(v)
    if isinstance(v, str):
        return float(v)
    return v


def close(a, b, rel=1e-11):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    # a time behind a large base is only known to some hundred nanoseconds
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), 1e-6 if BASE[0] else 0)
