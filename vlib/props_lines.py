"""C01, C02: the two line protocols (spec/Lines.tla)."""
import threading
from fractions import Fraction
from . import build as B, tlc as T
from .core import Rejected, drive, close

CFG = """SPECIFICATION Spec
CONSTANTS
Inputs <- MCInputs
Grow <- MCGrow
Steps = %d
Statsd = %s
Sec = 1000
INVARIANT Good
CONSTRAINT Emitting
CHECK_DEADLOCK FALSE
"""


def b(codes):
    return "".join(map(chr, codes))


def number(n):
    """The exact value of a number of the specification, as the double nearest to it."""
    if n["k"] == "nan":
        return float("nan")
    if n["k"] == "inf":
        return float("-inf") if n["neg"] else float("inf")
    m = 0
    base = 16 if n["k"] == "hex" else 10
    for x in n["ds"]:
        m = m * base + x
    if m == 0:
        return -0.0 if n["neg"] else 0.0
    if n["k"] == "dec" and abs(n["e"]) > 5000:
        v = float("inf") if n["e"] > 0 else 0.0
    else:
        f = Fraction(m) * (Fraction(2) if n["k"] == "hex" else Fraction(10)) ** n["e"]
        try:
            v = float(f)
        except OverflowError:
            v = float("inf")
    return -v if n["neg"] else v


def limbs(w):
    x = 0
    for l in w:
        x = x * 65536 + l
    return x


NOW = 2000000.0


def expected(v):
    """value, absolute tolerance"""
    if "d" in v:
        return v["n"] / v["d"], 0
    k = v.get("k", 1)
    if "ns" in v:
        s = limbs(v["ns"]) / 1e9
        return (s * s * k, 2.2e-9 * s * k + 1e-17) if v.get("sq") else (s * k, 1.1e-9 * k)
    if "age" in v:
        a = limbs(v["age"]) / 1e9
        return NOW - (-a if v["neg"] else a), 2e-9
    if "w" in v:
        x = float(limbs(v["w"]))
        return (x * x if v.get("sq") else x) * k, 0
    x = number(v["num"])
    if "rate" in v and v["rate"]["k"] != "none":
        x = x / number(v["rate"])
    if "x" in v:
        return x * 1000.0 / limbs(v["x"]), 0
    return (x * x if v.get("sq") else x) * k, 0


def case(v, status):
    ops = []
    zero = dict(C=0, U=str(limbs(v["base"])), X=0)
    for m in v["mono"]:
        ty = chr(m["ty"])
        ops.append(dict(op="api", ty=ty, n=b(m["n"]), t=[[b(x), b(y)] for x, y in m["t"]], v=zero[ty], x=0))
    ops.append(dict(op="measure"))
    ops.append(dict(op="statsd" if v["s"] else "line", s=b(v["d"])))
    ops.append(dict(op="measure"))
    return dict(start=int(NOW) * 10 ** 9, ttl=900 * 10 ** 9, status=status, ops=ops)


def diff(v, status, res):
    got = res[-2]["err"]
    if got != (v["bad"] > 0):
        return "error reported: specification %s, implementation %s" % (v["bad"] > 0, got)
    pub = [[p["n"], sorted(map(tuple, p["t"])), float(p["v"])] for p in res[-1]["pub"] if not p["n"].startswith("spectator.")]
    exp = []
    if status:
        for name, count in (("spectatord.parsedCount", v["parsed"]), ("spectatord.parseErrors", v["bad"])):
            if count:
                exp.append((name, [("statistic", "count")], {""}, float(count), 0))
    else:
        pass
    if v["loose"]:
        pub = [p for p in pub if p[0].startswith("spectatord.")]
    else:
        for p in v["pub"]:
            x, tol = expected(p["v"])
            exp.append((b(p["n"]), sorted((b(x_), b(y_)) for x_, y_ in p["t"]), set(p["pc"]) or {""}, x, tol))
    left = list(pub)
    for n, t, pc, x, tol in exp:
        for q in left:
            if q[0] == n and any(q[1] == (sorted(t + [("percentile", c)]) if c else t) for c in pc) and \
                    (close(q[2], x) or abs(q[2] - x) <= tol):
                left.remove(q)
                break
        else:
            return "expected %s %s %s = %r, published: %s" % (n, t, sorted(pc), x, pub)
    if left:
        return "published but not expected: %s" % left
    return None


SEQ = "RECURSIVE Joined(_)\nJoined(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \\o <<10>> \\o Joined(Tail(ss))\n"

NUMS = ["1", "0", "-1.5", ".5", "+3", " 2.25", "1e3", "1e-3", "0x1F", "0x1.8p1", "0X.8", "inf", "-inf", "Infinity", "nan", "nan(1)x",
        "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "9223372036854775907", "18446744073709551000", "-1", "1x", "x", "", "1 2", "1:2", "1,2", "1e", "1e+", "0x", "-", ".", "1.", "1..2", "-0", "4.5e2",
        "123456789.125", "000012", "0.1", "1e400", "1e-400", "86400", "100000", "9999", "1_000", "--1", "+-1", "0.000000001", "3e0"]
EXTRA = ["", ",10", ",0", ",-3", ",", ",5x", ", 7", ",+8", ",99999999999999", ",,", ",1500", "x", ",10:"]
NAMES = ["a", "a.b-c_1", "", "a b", "x=y", "a~^z", "caf$", "1", "a/b"]
TAGS = ["", ",k=v", ",k=v,k=w", ",b=2,a=1", ",k=", ",=v", ",k", ",k:x=1", ",k=v,", ",statistic=x", ",k=v=w", ",k!=v!", ",percentile=7,statistic=q", ",,k=v", ",a=1,b=2,c=3,d=4,e=5,f=6,g=7,h=8,i=9"]
TYPES = ["A", "c", "C", "d", "D", "g", "m", "t", "T", "U", "X", "q", "G", "", ":", "1"]

SNAMES = ["a", "a.b", "", "a b", "a|b", ":"]
SNUMS = NUMS
STYPES = ["c", "g", "ms", "h", "s", "m", "mx", "", "q", "cc", "gauge", "C"]
RATES = ["", "|@0.5", "|@1", "|@1.0", "|@0.1", "|@0.25", "|@0.4", "|@0.3", "|@0", "|@-0.5", "|@1.5", "|@2", "|@nan", "|@inf", "|@x", "|@", "|@1e-2", "|@0.000001", "|@1e-300",
         "|@.001", "|@0x1p-1", "|@0.5x", "|@ 0.5", "|", "||", "|@0.7", "|@0.9", "|@1.0000001", "|@0.0"]
STAGS = ["", "|#k:v", "|#k", "|#k:v,k:w", "|#b:2,a:1", "|#k:", "|#:v", "|#", "|#,", "|#a,,b", "|#a,", "|#a:b:c", "|#a::b", "|#k:v,shell", "|#shell,k:v", "|#k!:v!", "#k:v", "|#k:,b:1",
         "|#statistic:x", "|#k:v|x", "|#a:,", "|#:", "|#::", "|#a,b,c,d,e,f,g,h,i,j", "|#k:v,k", "|@|#k:v", "|#k:v|@0.5"]


def tset(xs):
    return "{%s}" % ", ".join("B(%s)" % T.tla(x) for x in xs)


def product(*sets):
    """TLA+ set of the concatenations of one string of every set."""
    names = "uvwxyz"[:len(sets)]
    return "{%s : %s}" % (" \\o ".join(names), ", ".join("%s \\in %s" % (v, tset(s)) for v, s in zip(names, sets)))


def run(ctx, statsd, jobs):
    ex = []

    def bld():
        try:
            ex.append(B.build("drv_registry", ["drv_registry.cc", "vclock.cc"], ["core", "server"]))
        except Exception as e:
            ex.append(e)
    th = threading.Thread(target=bld)
    th.start()
    rs = T.run_many(jobs, 8)
    th.join()
    if isinstance(ex[0], Exception):
        raise ex[0]
    ctx.add_model(rs)
    seen, cases, vs = set(), [], []
    for r in rs:
        for v in r.out:
            k = (tuple(v["d"]), tuple(v["base"]))
            if k in seen:
                continue
            seen.add(k)
            st = 0 if len(vs) % 9 == 8 else 1
            vs.append((v, st))
            cases.append(case(v, st))
    ctx.log("%d datagrams" % len(cases))
    res = drive(ex[0], cases, timeout=600)
    bad = None
    loose = accepted = 0
    for (v, st), c, r in zip(vs, cases, res):
        if isinstance(r, dict):
            if r.get("skipped"):
                continue
            d = r["crash"]
        else:
            d = diff(v, st, r)
            ctx.traces += 1
            loose += bool(v["loose"])
            accepted += v["parsed"]
        if d and (bad is None or len(v["d"]) < len(bad[1]["d"])):
            bad = (d, v, c, r)
    ctx.notes.update(datagrams=len(cases), with_effect_left_open=loose, lines_accepted=accepted, lines_rejected=sum(v["bad"] for v, _ in vs))
    ctx.sample(dict(datagram=b(vs[len(vs) // 2][0]["d"]), specification=vs[len(vs) // 2][0]))
    if bad:
        d, v, c, r = bad
        raise Rejected("%r: %s" % (b(v["d"]), d), dict(driver="drv_registry", case=c, specification=v, implementation=r))


def exhaustive(inputs, statsd, grow="{}", steps=0, defs=""):
    return dict(module="Lines", body=SEQ + defs + "MCInputs == %s\nMCGrow(s) == %s\n" % (inputs, grow), cfg=CFG % (steps, "TRUE" if statsd else "FALSE"),
                timeout=800, heap="2500m")


def random(body, statsd, steps, num, seed):
    return dict(module="Lines", body=SEQ + body, cfg=CFG % (steps, "TRUE" if statsd else "FALSE"), mode="sim", num=num, depth=steps + 1, seed=seed,
                timeout=800, heap="2g")


def c01(ctx):
    jobs = []
    good = ["A", "c", "C", "d", "D", "g", "m", "t", "T", "U", "X"]
    ty = "{u \\o v : u \\in %s, v \\in %s}" % (tset(TYPES), tset(EXTRA))
    stamped = tset([t + (",1500" if t in "Xg" else "") for t in good])
    jobs.append(exhaustive("{u \\o B(\":a:\") \\o v : u \\in %s, v \\in %s}" % (ty, tset(["1", "-2", "x"])), False))
    jobs.append(exhaustive("{u \\o B(\":a:\") \\o v : u \\in %s, v \\in %s}" % (stamped, tset(NUMS)), False))
    jobs.append(exhaustive("{u \\o B(\":\") \\o w \\o v \\o B(\":8\") : u \\in %s, w \\in %s, v \\in %s}" % (stamped, tset(NAMES[:5]), tset(TAGS)), False))
    jobs.append(exhaustive("{u \\o B(\":\") \\o w \\o v : u \\in %s, w \\in %s, v \\in %s}" % (tset(["c", "g,7"]), tset(NAMES), tset(["", ":", ":1", ",", ",:1", "::1", ",k=v:1", ",k=v:", "=1", ",=:1"])), False))
    # every short text over the separators
    n = ctx.scale(5, 6)
    jobs.append(exhaustive('{B("c:")}', False, '{s \\o <<c>> : c \\in {44, 58, 61, 97, 49, 10, 32, 99}}', n))
    jobs.append(exhaustive('{B("c")}', False, '{s \\o <<c>> : c \\in {44, 58, 61, 49, 10, 45}}', n + 1))
    jobs.append(exhaustive('{B("a"), B("")}', False, '{s \\o <<c>> : c \\in {58, 10, 49, 103}}', n))
    body = '''
Ln == {u \\o B(":") \\o w \\o v \\o B(":") \\o x : u \\in {Pick(%s)}, w \\in {Pick(%s)}, v \\in {Pick(%s)}, x \\in {Pick(%s)}}
Named(i) == {u \\o B(":") \\o w \\o v \\o B(":") \\o x : u \\in {Pick(%s)}, w \\in {B("n") \\o <<48 + i>>}, v \\in {Pick(%s)}, x \\in {Pick(%s)}}
MCInputs == {<<>>}
MCGrow(s) == IF step < 5 THEN {s \\o (IF s = <<>> THEN <<>> ELSE Pick({<<10>>, <<10, 10>>})) \\o l : l \\in (IF Pick(1..4) = 1 THEN Ln ELSE Named(step))}
             ELSE IF step = 5 THEN {IF Pick(1..3) = 1 THEN <<10>> \\o s ELSE s}
             ELSE {IF step - 6 < MCHits THEN Damage(s, {0, 9, 10, 32, 44, 45, 46, 48, 49, 57, 58, 61, 65, 88, 99, 101, 103, 120, 127, 128, 200, 255}) ELSE s}
''' % (ty, tset(NAMES), tset(TAGS), tset(NUMS), stamped, tset(TAGS[:4] + TAGS[9:]), tset(NUMS[:12] + NUMS[16:23]))
    num = ctx.scale(1500, 20000)
    for i in range(3):
        jobs.append(random("MCHits == %d\n" % i + body, False, 9, num, ctx.seed * 100 + i))
    run(ctx, False, jobs)


def c02(ctx):
    jobs = []
    good = tset(["c", "g", "ms", "h", "s"])
    jobs.append(exhaustive("{B(\"a:\") \\o u \\o B(\"|\") \\o v : u \\in %s, v \\in %s}" % (tset(SNUMS), tset(STYPES)), True))
    jobs.append(exhaustive("{B(\"a:\") \\o w \\o B(\"|\") \\o u \\o v : w \\in %s, u \\in %s, v \\in %s}" % (tset(["8", "-4", "0.5"]), good, tset(RATES)), True))
    jobs.append(exhaustive("{B(\"a:8|\") \\o u \\o w \\o v : u \\in %s, w \\in %s, v \\in %s}" % (good, tset(["", "|@0.5"]), tset(STAGS)), True))
    jobs.append(exhaustive("{u \\o w \\o v : u \\in %s, w \\in %s, v \\in %s}" % (tset(SNAMES), tset(["", ":", ":1", ":1|", "1|c"]), tset(["|c", "c", "|g|#k", "||", ""])), True))
    n = ctx.scale(5, 6)
    jobs.append(exhaustive('{B("a:1|c|#")}', True, '{s \\o <<c>> : c \\in {44, 58, 97, 124, 49, 35, 10}}', n))
    jobs.append(exhaustive('{B("a:1|c|")}', True, '{s \\o <<c>> : c \\in {64, 35, 124, 48, 49, 46}}', n + 1))
    jobs.append(exhaustive('{B("a")}', True, '{s \\o <<c>> : c \\in {58, 124, 49, 99, 10, 97}}', n + 1))
    body = '''
Ln == {u \\o B(":") \\o w \\o B("|") \\o v \\o x \\o y : u \\in {Pick(%s)}, w \\in {Pick(%s)}, v \\in {Pick(%s)}, x \\in {Pick(%s)}, y \\in {Pick(%s)}}
Named(i) == {u \\o B(":") \\o w \\o B("|") \\o v \\o x \\o y : u \\in {B("n") \\o <<48 + i>>}, w \\in {Pick(%s)}, v \\in {Pick(%s)}, x \\in {Pick(%s)}, y \\in {Pick(%s)}}
MCInputs == {<<>>}
MCGrow(s) == IF step < 5 THEN {s \\o (IF s = <<>> THEN <<>> ELSE Pick({<<10>>, <<10, 10>>})) \\o l : l \\in (IF Pick(1..4) = 1 THEN Ln ELSE Named(step))}
             ELSE IF step = 5 THEN {IF Pick(1..3) = 1 THEN <<10>> \\o s ELSE s}
             ELSE {IF step - 6 < MCHits THEN Damage(s, {0, 10, 32, 35, 44, 45, 46, 48, 49, 57, 58, 64, 99, 101, 104, 109, 115, 120, 124, 128, 255}) ELSE s}
''' % (tset(SNAMES), tset(SNUMS), tset(STYPES), tset(RATES), tset(STAGS), tset(SNUMS[:10]), good, tset(RATES[:7]), tset(STAGS[:5]))
    num = ctx.scale(1500, 20000)
    for i in range(3):
        jobs.append(random("MCHits == %d\n" % i + body, True, 9, num, ctx.seed * 100 + i))
    run(ctx, True, jobs)
