"""Replays behaviours of spec/Registry.tla on the real registry (harness/drv_registry.cc)."""
import json
from fractions import Fraction
from decimal import Decimal, getcontext
from . import build as B, tlc as T
from . import core
from .core import Rejected, drive, num, close

getcontext().prec = 3000
SEC = 1000                       # ticks per second
TICK_NS = 1000000000 // SEC
START = 1000 * SEC

CFG = '''SPECIFICATION Spec
CONSTANTS
Raw <- MCRaw
MeterTtl = %(ttl)d
AgeLimit = %(limit)d
Status = %(status)s
Start = %(start)d
Sec = %(sec)d
UnitNs <- MCUnitNs
UnitW <- MCUnitW
UnitDen = %(den)d
Ops <- MCOps
Pick <- %(pick)s
Depth = %(depth)d
KeepHistory = TRUE
INVARIANT GoodState NoStale
CONSTRAINT Emitting
CHECK_DEADLOCK FALSE
'''

# helpers the operation sets of a configuration use
PRELUDE = '''
U(t, i, v) == [op |-> "upd", ty |-> t, id |-> i, v |-> v, x |-> 0, via |-> "line"]
UX(t, i, v, xx) == [op |-> "upd", ty |-> t, id |-> i, v |-> v, x |-> xx, via |-> "line"]
Ext(o, text) == [op |-> "upd", ty |-> o.ty, id |-> o.id, v |-> o.v, x |-> o.x, via |-> o.via, ext |-> text]
Api(t, i, v) == [op |-> "upd", ty |-> t, id |-> i, v |-> v, x |-> 0, via |-> "api"]
Cached(t, i, v) == [op |-> "upd", ty |-> t, id |-> i, v |-> v, x |-> 0, via |-> "cache"]
Txt(o, text) == [op |-> "upd", ty |-> o.ty, id |-> o.id, v |-> o.v, x |-> o.x, via |-> o.via, txt |-> text]
UU(i, ww) == [op |-> "upd", ty |-> "U", id |-> i, v |-> 0, w |-> ww, x |-> 0, via |-> "line"]
ApiU(i, ww) == [op |-> "upd", ty |-> "U", id |-> i, v |-> 0, w |-> ww, x |-> 0, via |-> "api"]
Bad(text) == [op |-> "bad", s |-> text]
Get(t, i, xx) == [op |-> "get", ty |-> t, id |-> i, x |-> xx]
Adv(dd) == [op |-> "adv", dt |-> dd]
Advs(S) == {Adv(dd) : dd \\in S}
Measure == [op |-> "measure"]
Expire == [op |-> "expire"]
CExpire(t) == [op |-> "cexpire", ty |-> t]
Del(t, i) == [op |-> "del", ty |-> t, id |-> i]
DelAll(t) == [op |-> "delall", ty |-> t]
List == [op |-> "list"]
'''


def wide(n):
    l = []
    for i in range(4):
        l.append(n % 65536)
        n //= 65536
    return "<<%s>>" % ", ".join(map(str, reversed(l)))


def job(f, seed, num_=None):
    """f: dict(raw, ops, depth, [ttl, limit, status, unit, mode, num])"""
    unit = Fraction(f.get("unit", Fraction(1, 8)))
    ns = unit * 1000000000
    # percentile meters, which need these, are only used with units for which they fit
    if ns >= 2 ** 63:
        ns = 1
    if unit.numerator >= 2 ** 63 or unit.denominator >= 2 ** 31:
        unit = Fraction(1)
    raw = "<<%s>>" % ", ".join(
        "[n |-> %s, t |-> <<%s>>]" % (T.tla(n), ", ".join(T.tla([k, v]) for k, v in t)) for n, t in f["raw"])
    body = "MCRaw == %s\nMCUnitNs == %s\nMCUnitW == %s\n%s\n%s\nMCOps(st) == %s\n" % (
        raw, wide(int(ns)), wide(unit.numerator), PRELUDE, f.get("defs", ""), f["ops"])
    sim = f.get("mode", "bfs") == "sim"
    cfg = CFG % dict(ttl=f.get("ttl", 900 * SEC), limit=f.get("limit", 1000), status="TRUE" if f.get("status", True) else "FALSE",
                     start=f.get("start", START), sec=SEC, den=unit.denominator, depth=f["depth"], pick="One" if sim else "All")
    return dict(module="Registry", body=body, cfg=cfg, mode="sim" if sim else "bfs", num=num_ or f.get("num", 100),
                depth=f["depth"] + 1, seed=seed, timeout=800, heap="2g")


def dec(fr):
    """exact decimal text of a fraction whose denominator is a power of two"""
    fr = Fraction(fr)
    d = Decimal(fr.numerator) / Decimal(fr.denominator)
    t = format(d, "f")
    assert Fraction(t) == fr
    return t


def value(v, unit):
    if isinstance(v, dict):
        if "u1" in v:
            return float(Fraction(v["u1"]) * unit * v.get("x", 1) / v.get("d", 1))
        if "u2" in v:
            return float(Fraction(v["u2"]) * unit * unit)
    return num(v)


def limbs(w):
    x = 0
    for l in w:
        x = x * 65536 + l
    return x


def amount(op, unit, base=0):
    if "txt" in op:
        return op["txt"]
    if op["ty"] == "U":
        return str(limbs(op["w"]))
    if op["ty"] == "A":
        return dec(Fraction(op["v"], 8) + (base if op["v"] else 0))
    return dec(Fraction(op["v"]) * unit)


def line_of(op, raw, unit, base=0):
    n, t = raw[op["id"] - 1]
    extra = ""
    if "ext" in op:
        extra = "," + op["ext"]
    elif op["ty"] == "g" and op["x"]:
        assert op["x"] % SEC == 0
        extra = ",%d" % (op["x"] // SEC)
    if op["ty"] == "X":
        extra = ",%d" % op["x"]
    return "%s%s:%s%s:%s" % (op["ty"], extra, n, "".join(",%s=%s" % tuple(kv) for kv in t), amount(op, unit, base))


def case_of(f, h):
    unit = Fraction(f.get("unit", Fraction(1, 8)))
    raw = f["raw"]
    base = f.get("base", 0)
    ops = []
    for e in h:
        op = e["o"]
        k = op["op"]
        if k == "upd" and op["via"] == "line":
            ops.append(dict(op="line", s=line_of(op, raw, unit, base)))
        elif k == "upd":
            n, t = raw[op["id"] - 1]
            a = amount(op, unit)
            if op["ty"] in "tT" and "txt" not in op:
                a = dec(Fraction(op["v"]) * unit * 1000000000)
            if op["ty"] == "A" and "txt" not in op:
                a = str(int((Fraction(op["v"], 8) + (base if op["v"] else 0)) * 1000000000))
            if op["via"] == "cache":
                a = int(Fraction(a))
            ops.append(dict(op=op["via"], ty=op["ty"], n=n, t=t, v=a,
                            x=op["x"] * (1000000 if op["ty"] == "X" else TICK_NS)))
        elif k == "bad":
            ops.append(dict(op="line", s=op["s"]))
        elif k == "adv":
            ops.append(dict(op="adv", dt=op["dt"] * TICK_NS))
        elif k in ("get", "del"):
            n, t = raw[op["id"] - 1]
            ops.append(dict(op=k, ty=op["ty"], n=n, t=t, x=op.get("x", 0) * TICK_NS))
        else:
            ops.append(op)
    return dict(start=f.get("start", START) * TICK_NS + base * 1000000000, ttl=f.get("ttl", 900 * SEC) * TICK_NS, limit=f.get("limit", 1000),
                status=1 if f.get("status", True) else 0, ops=ops)


def group(items):
    g = {}
    for k, v in items:
        g.setdefault(k, []).append(v)
    return g


def same(exp, got):
    """both: lists of (key, float); None or the difference"""
    a, b = group(exp), group(got)
    for k in sorted(set(a) | set(b), key=str):
        x, y = sorted(a.get(k, []), key=lambda z: (z != z, z)), sorted(b.get(k, []), key=lambda z: (z != z, z))
        if len(x) != len(y) or not all(close(p, q) for p, q in zip(x, y)):
            return "%s: specification %s, implementation %s" % (k, x, y)
    return None


def key(n, t):
    return (n, tuple(sorted((a, b) for a, b in t)))


def diff(f, h, res):
    """None, or (step, what) of the first difference"""
    unit = Fraction(f.get("unit", Fraction(1, 8)))
    core.BASE[0] = f.get("base", 0)
    for i, e in enumerate(h):
        exp, got = e["r"], res[i]
        k = e["o"]["op"]
        if k in ("upd", "bad"):
            if "err" in got and got["err"] != exp["err"]:
                return i, "error reported: specification %s, implementation %s" % (exp["err"], got["err"])
        elif k == "measure":
            d = same([(key(p["n"], p["t"]), value(p["v"], unit)) for p in exp["pub"]],
                     [(key(p["n"], p["t"]), float(p["v"])) for p in got["pub"]])
            if d:
                return i, "published " + d
            if not got["cb"]:
                return i, "the measurement callback saw other measurements than those returned"
        elif k == "list":
            d = same([((p["ty"],) + key(p["id"]["n"], p["id"]["t"]), value(p["v"], unit)) for p in exp["list"]],
                     [((p["ty"],) + key(p["n"], p["t"]), float(p["v"])) for p in got["list"] if not p["n"].startswith("spectator")])
            if d:
                return i, "listed " + d
            if exp["size"] != got["size"]:
                return i, "registry size: specification %s, implementation %s" % (exp["size"], got["size"])
        elif k == "del":
            if exp["ok"] != got["ok"]:
                return i, "deletion: specification %s, implementation %s" % (exp["ok"], got["ok"])
        elif k == "cexpire":
            if (exp["size"], exp["expired"]) != (got["size"], got["expired"]):
                return i, "cache: specification %s, implementation %s" % (exp, got)
    return None


def check(ctx, families):
    """Generates the behaviours of every family, replays them all, compares."""
    jobs, owner = [], []
    for fi, f in enumerate(families):
        if f.get("mode", "bfs") == "sim":
            n = f.get("num", 100) * ctx.scale(1, f.get("thorough", 8))
            parts = max(1, min(8, n // 400))
            for p in range(parts):
                jobs.append(job(f, ctx.seed * 1000 + fi * 50 + p, n // parts))
                owner.append(f)
        else:
            g = dict(f)
            if ctx.thorough and "tdepth" in f:
                g["depth"] = f["tdepth"]
            jobs.append(job(g, ctx.seed))
            owner.append(f)
    exe_thread = []
    import threading

    def bld():
        try:
            exe_thread.append(B.build("drv_registry", ["drv_registry.cc", "vclock.cc"], ["core", "server"]))
        except Exception as e:
            exe_thread.append(e)
    t = threading.Thread(target=bld)
    t.start()
    rs = T.run_many(jobs, 8)
    t.join()
    if isinstance(exe_thread[0], Exception):
        raise exe_thread[0]
    exe = exe_thread[0]
    ctx.add_model(rs)
    cases, who = [], []
    kinds = {}
    for f, r in zip(owner, rs):
        if not r.out:
            raise T.ModelError("no behaviours for %s" % f.get("name"))
        for h in r.out:
            cases.append(case_of(f, h))
            who.append((f, h))
            for e in h:
                o = e["o"]
                kk = o["op"] + ((":" + o["ty"]) if "ty" in o else "")
                kinds[kk] = kinds.get(kk, 0) + 1
                if o["op"] == "measure":
                    kinds["published"] = kinds.get("published", 0) + len(e["r"]["pub"])
    ctx.log("%d behaviours" % len(cases))
    res = drive(exe, cases, timeout=600)
    bad = None
    for (f, h), c, r in zip(who, cases, res):
        if isinstance(r, dict) and r.get("skipped"):
            continue
        if isinstance(r, dict):
            d = (len(h), r["crash"])
        else:
            d = diff(f, h, r)
            ctx.traces += 1
        if d and (bad is None or d[0] < bad[0]):
            bad = (d[0], d[1], c, h, r)
    ctx.notes["operations_replayed"] = {**ctx.notes.get("operations_replayed", {}), **kinds}
    if cases:
        ctx.sample(dict(case=cases[len(cases) // 2]))
    if bad:
        i, what, c, h, r = bad
        c = dict(c, ops=c["ops"][:i + 1])
        exp = h[i] if i < len(h) else None
        raise Rejected("step %d: %s" % (i, what), dict(driver="drv_registry", case=c, specification=exp,
                       implementation=r[i] if isinstance(r, list) else r))
