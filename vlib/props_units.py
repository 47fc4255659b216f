"""C10, C18, C19, C20, C21, C26, C27, C28: parts that need no registry. Cases are generated by the
specification or judged by it after the real code has run them."""
import json, math, os, random, shutil, struct, tempfile, threading
from fractions import Fraction
from . import build as B, tlc as T
from .core import Rejected, drive
from .props_conc import explain


class Units:
    """Builds the driver meanwhile; runs cases in a scratch directory."""
    def __init__(s, ctx):
        s.ctx, s.exe = ctx, []
        s.th = threading.Thread(target=s._build)
        s.th.start()

    def _build(s):
        try:
            s.exe.append(B.build("drv_units", ["drv_units.cc", "vclock.cc"], ["meters", "proc"]))
        except Exception as e:
            s.exe.append(e)

    def run(s, cases, timeout=600, chunk=None):
        s.th.join()
        if isinstance(s.exe[0], Exception):
            raise s.exe[0]
        d = tempfile.mkdtemp(prefix="units_")
        try:
            rs = drive(s.exe[0], cases, args=[d], timeout=timeout, chunk=chunk)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        for c, r in zip(cases, rs):
            if r is None or r.get("skipped"):
                continue
            if "crash" in r:
                raise Rejected("%s: %s" % (json.dumps(c)[:600], r["crash"]), dict(driver="drv_units", case=c, error=r))
            if r.get("leak", 0) > 0:
                raise Rejected("%s: %d bytes are never released" % (json.dumps(c)[:600], r["leak"]), dict(driver="drv_units", case=c, result=r))
        s.ctx.traces += len(cases)
        return rs


JUDGE = "SPECIFICATION Spec\nCONSTRAINT Explained\nCHECK_DEADLOCK FALSE\n"


def judge(ctx, module, hists, cases, cfg=JUDGE, what=None):
    bad = explain(ctx, module, cfg, hists)
    if bad:
        k = min(bad, key=lambda j: len(json.dumps(hists[j])))
        raise Rejected("%s does not allow %s" % (module, (what or (lambda j: json.dumps(hists[j])[:1500]))(k)),
                       dict(driver="drv_units", case=cases[k], observed=hists[k]))


def limbs(v):
    return [(v >> s) & 0xffff for s in (48, 32, 16, 0)]


def wide(l):
    return l[0] << 48 | l[1] << 32 | l[2] << 16 | l[3]


# ---------------------------------------------------------------- C10

def c10(ctx):
    rnd = random.Random(ctx.seed + 10)
    u = Units(ctx)
    # the table of the scheme, from the specification
    r = T.run(module="Buckets", body='ASSUME PrintT("@@" \\o ToJson(<<Bounds, [i \\in 1..276 |-> LargestOf(i - 1)]>>))\nVARIABLE z\nInit == z = 0\nNext == FALSE /\\ UNCHANGED z',
              cfg="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
    bounds, upper = ([wide(b) for b in x] for x in r.out[0])
    # amounts
    M = 2 ** 63
    vs = {0, 1, 2, 3, 4, 5, -1, -2, -M, M - 1, M - 2}
    for b in bounds + upper:
        vs |= {b - 1, b, b + 1, b + 2, -b}
    for k in range(63):
        vs |= {2 ** k - 1, 2 ** k, 2 ** k + 1, -2 ** k}
    for _ in range(ctx.scale(3000, 60000)):
        vs.add(rnd.getrandbits(rnd.randrange(1, 64)) * rnd.choice([1, 1, 1, -1]))
    vs = sorted(v for v in vs if -M <= v < M)
    cases = [dict(u="idx", v=[str(v) for v in vs])]
    # every amount of a range, and random ones: the specification's table decides
    top = ctx.scale(2 ** 24, 2 ** 30)
    cases += [dict(u="scan", upper=[str(x) for x in upper], lo=str(i * top // 16), hi=str((i + 1) * top // 16), seed=ctx.seed * 100 + i,
                   rnd=ctx.scale(10 ** 6, 10 ** 8), around=ctx.scale(300, 20000)) for i in range(16)]
    cases += [dict(u="scan", upper=[str(x) for x in upper], lo="-1000", hi="1000", seed=0, rnd=0, around=0)]
    # estimates
    pcts = []
    def counts(ks):
        return [[k, rnd.choice([0, 1, 1, 2, 3, 7, 10, 100, 1000])] for k in ks]
    allp = list(range(0, 801))
    for _ in range(ctx.scale(500, 8000)):
        kind = rnd.random()
        if kind < .3:
            ks = sorted(rnd.sample(range(276), rnd.choice([1, 2, 3])))
        elif kind < .5:
            s = rnd.randrange(270)
            ks = list(range(s, s + rnd.randrange(1, 7)))
        elif kind < .7:
            ks = rnd.sample([0, 1, 2, 274, 275], rnd.randrange(1, 5))
        else:
            ks = rnd.sample(range(276), rnd.randrange(3, 40))
        cs = counts(ks)
        if not any(c for _, c in cs):
            cs[0][1] = 1
        total = sum(c for _, c in cs)
        p = set(rnd.sample(allp, rnd.randrange(1, 12))) | set(rnd.sample([0, 800, 400, 792, 1], 2))
        # percentiles that are reached exactly
        acc = 0
        for _, c in sorted(cs):
            acc += c
            if 800 * acc % total == 0 and rnd.random() < .5:
                p.add(800 * acc // total)
        pcts.append((cs, sorted(p)))
    base = len(cases)
    cases += [dict(u="pct", counts=cs, p=[x / 8 for x in p]) for cs, p in pcts]
    rs = u.run(cases, chunk=60)
    hists, owner = [], []
    for v, (i, b) in zip(vs, rs[0]["r"]):
        hists.append(dict(k="idx", neg=v < 0, v=limbs(abs(v)), i=i, b=limbs(int(b) & (2 ** 64 - 1))))
        owner.append(dict(u="idx", v=[str(v)]))
    for i in range(1, base):
        if rs[i]["r"]["bad"]:
            raise Rejected("bucket of %s is not the one of the scheme" % rs[i]["r"]["bad"], dict(driver="drv_units", case=dict(u="idx", v=rs[i]["r"]["bad"])))
        ctx.notes["amounts_scanned"] = ctx.notes.get("amounts_scanned", 0) + rs[i]["r"]["n"]

    def around(t):
        x = float(t)
        if math.isnan(x) or math.isinf(x) or x < 0:
            return []
        f = Fraction(x)
        e = f / 10 ** 12
        return [limbs(min(2 ** 63, math.floor(f - e)) if f > e else 0), limbs(min(2 ** 63, math.ceil(f + e)))]
    for (cs, p), q, c in zip(pcts, rs[base:], cases[base:]):
        for col in (0, 1):
            hists.append(dict(k="pct", counts=cs, p=p, r=[around(x[col]) for x in q["r"]]))
            owner.append(c)
    judge(ctx, "Percentiles", hists, owner, JUDGE)
    ctx.sample(owner[-1])
    # the counters of the percentile meters: one for each bucket, with its number
    rexe = B.build("drv_registry", ["drv_registry.cc", "vclock.cc"], ["core", "server"])
    tag4 = T.run(module="Buckets", body='ASSUME PrintT("@@" \\o ToJson([x \\in {"T", "D"} |-> [i \\in 1..276 |-> Tag4(x, i - 1)]]))\nVARIABLE z\nInit == z = 0\nNext == FALSE /\\ UNCHANGED z',
                 cfg="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n").out[0]
    rcases = []
    for ty in "TD":
        for ks in [range(276)] + [[rnd.randrange(276)] for _ in range(ctx.scale(6, 60))] + [rnd.sample(range(276), 20) for _ in range(ctx.scale(4, 40))]:
            oo = [dict(op="cache", ty=ty, n="p", t=[], v=rnd.choice([upper[i], max(bounds[i - 1], 1) if i else 0])) for i in ks]
            rcases.append(dict(ttl=900 * 10 ** 9, start=2 * 10 ** 15, status=0, ops=oo + [dict(op="measure")]))
    for c, r in zip(rcases, drive(rexe, rcases, timeout=300)):
        if "crash" in r:
            raise Rejected(r["crash"], dict(driver="drv_registry", case=c, error=r))
        ty = c["ops"][0]["ty"]
        got = sorted((dict(map(tuple, m["t"])).get("percentile"), float(m["v"])) for m in r[-1]["pub"] if any(k == "percentile" for k, _ in m["t"]))
        exp = {}
        for o in c["ops"][:-1]:
            v = min(max(o["v"], 1), 86400 * 10 ** 9) if ty == "T" else o["v"]      # (the server's range for timers)
            i = next(j for j in range(276) if v <= upper[j])
            exp[tag4[ty][i]] = exp.get(tag4[ty][i], 0) + 1.0
        if got != sorted(exp.items()):
            raise Rejected("percentile counters of %s: %s, expected %s" % (json.dumps(c)[:300], got[:5], sorted(exp.items())[:5]),
                           dict(driver="drv_registry", case=c, result=r[-1]))
        ctx.traces += 1


# ---------------------------------------------------------------- C18

def c18(ctx):
    rnd = random.Random(ctx.seed + 18)
    u = Units(ctx)
    ints = sorted({0, 1, 2, 15, 16, 31, 32, 33, 63, 64} | {2 ** k + d for k in range(4, 31) for d in (-2, -1, 0, 1, 2)} | {2 ** 31 - 1, 2 ** 31 - 2})
    ints = [i for i in ints if 0 <= i < 2 ** 31]
    dbl = [0.0, -0.0, 1.0, -1.0, 0.1, math.pi, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, float("inf"), float("-inf")]
    bits = [struct.unpack(">Q", struct.pack(">d", d))[0] for d in dbl] + [0x7ff8000000000000, 0x7ff0000000000001, 0xfff8123456789abc, 2 ** 64 - 1] + \
        [1 << k for k in range(64)] + [2 ** 64 - 1 - (1 << k) for k in range(64)] + [(1 << k) - 1 for k in range(1, 64)]
    text = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~^ "

    def string(n):
        return "".join(rnd.choice(text) if rnd.random() < .9 else chr(rnd.randrange(128)) for _ in range(n))
    lens = list(range(0, 70)) + [96, 97, 127, 128, 129, 200, 255, 256, 500]
    singles = [("i", i) for i in ints] + [("z", i) for i in ints] + [("d", b) for b in bits] + [("s", string(n)) for n in lens] + \
        [("s", chr(c)) for c in range(128)] + [("s", chr(c) * n) for c in (32, 64, 127, 0) for n in (2, 64, 65)]

    def value():
        r = rnd.random()
        if r < .35:
            return (rnd.choice("iz"), rnd.choice(ints) if rnd.random() < .5 else rnd.getrandbits(rnd.randrange(1, 32)))
        if r < .6:
            return ("d", rnd.choice(bits) if rnd.random() < .5 else rnd.getrandbits(64))
        return ("s", string(rnd.choice(lens) if rnd.random() < .8 else rnd.randrange(300)))
    runs = [[[]], [[], [("i", 5)], []]]
    for i in range(0, len(singles), 7):        # several values in a payload, and each on its own as the only one
        runs.append([singles[i:i + 7]])
    runs += [[[x]] for x in singles]
    for a in (("i", 0), ("d", bits[5]), ("s", ""), ("s", "x" * 64), ("s", "x" * 65), ("i", 2 ** 20)):
        for b in (("i", 31), ("i", 32), ("d", 2 ** 64 - 1), ("s", "a" * 33), ("s", "q" * 100)):
            runs.append([[a, b], [b, a], [a, a, b]])
    for _ in range(ctx.scale(600, 8000)):
        runs.append([[value() for _ in range(rnd.choice([0, 1, 2, 5, 12, 30]))] for _ in range(rnd.choice([1, 1, 2, 3, 5]))])
    # long ones: several chunks of the buffer behind it
    longs = []
    for n in (1000, 3000):
        longs.append([[("s", string(n)), ("i", 7)], [("s", string(20)), ("d", bits[5])]])
    runs += longs
    cases = [dict(u="smile", runs=[[[k, v if k in "iz" else "%016x" % v if k == "d" else v] for k, v in run] for run in rr]) for rr in runs]
    rs = u.run(cases, chunk=80)
    hists = []
    for rr, r in zip(runs, rs):
        hists.append([dict(vals=[["i", limbs(v)] if k in "iz" else ["d", limbs(v)] if k == "d" else ["s", [ord(ch) for ch in v]] for k, v in run],
                           ok=q["ok"], b=q["b"]) for run, q in zip(rr, r["r"])])
    judge(ctx, "Smile", hists, cases)
    ctx.sample(cases[30])
    # payloads of the size of a real one, decoded by the same rules in vlib/smile.py
    from . import smile as SM
    big = []
    for k in range(ctx.scale(4, 30)):
        big.append([[value() for _ in range(rnd.choice([3000, 20000]))], [value() for _ in range(5)]])
    cases = [dict(u="smile", runs=[[[k, v if k in "iz" else "%016x" % v if k == "d" else v] for k, v in run] for run in rr]) for rr in big]
    for rr, c, r in zip(big, cases, u.run(cases, chunk=1)):
        for run, q in zip(rr, r["r"]):
            got = SM.decode(bytes(q["b"]))
            got = [("d", x[2]) if isinstance(x, tuple) else x for x in got]
            exp = [v if k in "izs" else ("d", v) for k, v in run]
            if not q["ok"] or got != exp:
                raise Rejected("a payload of %d values does not decode to them" % len(exp), dict(driver="drv_units", case=c))


# ---------------------------------------------------------------- C19

def c19(ctx):
    rnd = random.Random(ctx.seed + 19)
    u = Units(ctx)
    # chunk configurations: input chunk, first output, output growth
    configs = [(16, 8, 8), (64, 1, 20), (1000, 100, 64), (1000, 5000, 1000), (0, 64, 32), (100, 0, 40), (4096, 1024, 512)]
    plans = []
    for cf in configs:
        ci = max(cf[0], 1)
        sizes = sorted({0, 1, max(0, ci - 1), ci, ci + 1, 2 * ci + 1})
        plans.append((cf, [["rnd", s] for s in sizes] + [["text", 3 * ci], ["bytes", 1], ["bytes", 4]]))
    big = [((256 * 1024, 256 * 1024, 32 * 1024), [["rnd", 256 * 1024 - 1], ["rnd", 256 * 1024 + 1], ["text", 700000], ["bytes", 6], ["rnd", 17], ["same", 2000000]]),
           ((4096, 16, 12), [["rnd", 4095], ["rnd", 4097], ["text", 50000], ["bytes", 2], ["bytes", 3], ["bytes", 5], ["rnd", 0], ["same", 100000]]),
           ((50, 10, 7), [["bytes", k] for k in range(1, 7)] + [["rnd", 49], ["rnd", 51], ["text", 300]]),
           ((1, 1, 4), [["bytes", k] for k in range(1, 7)] + [["text", 20], ["rnd", 1]])]
    cfg = "SPECIFICATION Spec\nCONSTANTS\nPieces <- MCPieces\nDepth = %d\nWeighted = %s\nINVARIANT Runs\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
    jobs, own = [], []
    for cf, pieces in plans:
        jobs.append(dict(module="Compress", body="MCPieces == " + T.tla(pieces), cfg=cfg % (ctx.scale(4, 5), "FALSE"), timeout=600))
        own.append(cf)
    for cf, pieces in plans + big:
        heavy = cf[0] > 100000
        jobs.append(dict(module="Compress", body="MCPieces == " + T.tla(pieces), cfg=cfg % (ctx.scale(14, 25), "TRUE"), mode="sim",
                         num=ctx.scale(15 if heavy else 150, 100 if heavy else 2000), depth=ctx.scale(14, 25) + 1, seed=ctx.seed, timeout=600))
        own.append(cf)
    rs = T.run_many(jobs, 8)
    ctx.add_model(rs)
    cases, wants = [], []
    for cf, r in zip(own, rs):
        seen = set()
        for x in r.out:
            key = json.dumps(x["ops"])
            if key in seen:
                continue
            seen.add(key)
            cases.append(dict(u="buf", cfg=list(cf), seed=len(cases) % 97, ops=x["ops"]))
            wants.append([w for w in x["want"] if w])
    ctx.log("%d histories" % len(cases))
    order = list(range(len(cases)))
    rnd.shuffle(order)                  # (the heavy ones spread over the processes)
    got = u.run([cases[i] for i in order], chunk=max(1, min(200, len(cases) // 16)))
    for i, r in zip(order, got):
        for w, q in zip(wants[i], r["r"]):
            if not q["ok"] or list(w) not in q["runs"]:
                raise Rejected("result is not the concatenation of pieces %s (ok=%s, %d bytes, runs %s)" % (w, q["ok"], q["n"], q["runs"][:5]),
                               dict(driver="drv_units", case=cases[i], want=wants[i], got=r))
    ctx.notes.update(histories=len(cases))
    ctx.sample(cases[0])
    # one-shot
    gz = []
    for kind in ("rnd", "text", "same"):
        for n in [0, 1, 2, 10, 100, 1000, 5000, 32768, 65536, 100000] + [rnd.randrange(20000) for _ in range(ctx.scale(3, 40))]:
            gz.append(dict(u="gz", kind=kind, len=n, seed=rnd.randrange(1000), pack=[-1, -2, -8, -9, -17, -20, -100, -1000, 0, 64, 1000],
                           unpack=[0, 1, 100, 5000, -1, -2, -10, -100, -1000, -n], cut=[0, 1, 10, 100, 300, 500, 700, 900, 990, 999],
                           flip=list(range(0, 24)) + [rnd.randrange(80, 20000) for _ in range(ctx.scale(12, 200))] + [-k for k in range(1, 65)],
                           junk=[0, 1, 5, 18, 100, 1000]))
    rs = u.run(gz, chunk=3)
    hists = [[[w, a, rc, same] for w, a, rc, same in r["r"]] for r in rs]
    judge(ctx, "OneShot", hists, gz)


# ---------------------------------------------------------------- C20

def tag_keys(n):
    ks = ["k%d" % i for i in range(1, n + 1)] + ["a", "K", "k", "zz", "_", "~", "^x", "k-1", "k.1"]
    return sorted(set(ks), key=lambda s: s.encode())[:n]


def c20(ctx):
    rnd = random.Random(ctx.seed + 20)
    u = Units(ctx)
    cfg = "SPECIFICATION Spec\nCONSTANTS\nN = %d\nNKeys = %d\nSpans <- MCSpans\nVals = {%s}\nDepth = %d\nWeighted = %s\nINVARIANT Independent\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
    jobs = []
    nk = 30
    ks = tag_keys(nk)
    spans = [[1, 8, 1], [1, 9, 1], [12, 4, -1], [13, 13, 1], [2, 30, 2]]
    jobs.append(dict(module="Tags", body="MCSpans == " + T.tla(spans), cfg=cfg % (2, nk, "1", 3, "FALSE"), timeout=600, workers=2))
    jobs.append(dict(module="Tags", body="MCSpans == " + T.tla(spans[:4]), cfg=cfg % (2, nk, "1", 3, "FALSE"), timeout=600, workers=2))
    jobs.append(dict(module="Tags", body="MCSpans == " + T.tla([[1, 9, 1], [12, 5, -1]]), cfg=cfg % (2, nk, "1", ctx.scale(3, 4), "FALSE"), timeout=600, workers=2))
    for k in range(5):
        jobs.append(dict(module="Tags", body="MCSpans == <<>>", cfg=cfg % (3, nk if k % 2 else 14, "1, 2, 3", ctx.scale(25, 60), "TRUE"), mode="sim",
                         num=ctx.scale(250, 3000), depth=ctx.scale(25, 60) + 1, seed=ctx.seed + k, timeout=800))
    rs = T.run_many(jobs, 8)
    ctx.add_model(rs)
    cases, wants, seen = [], [], set()
    for x in (x for r in rs for x in r.out):
        key = json.dumps(x["ops"])
        if key in seen:
            continue
        seen.add(key)
        # interned in another order than they sort
        cases.append(dict(u="tags", n=len(x["want"][0]), keys=ks, order=rnd.sample(range(nk), nk) if len(cases) % 400 == 0 else [], ops=x["ops"]))
        wants.append(x["want"])
    ctx.log("%d histories" % len(cases))
    ctx.notes.update(histories=len(cases))
    for c, w, r in zip(cases, wants, u.run(cases, chunk=400)):
        for k, (exp, got) in enumerate(zip(w, r["r"])):
            def no(what):
                raise Rejected("after %s of %s: %s" % (k + 1, json.dumps(c["ops"]), what), dict(driver="drv_units", case=c, want=exp, got=got))
            for i, (e, g) in enumerate(zip(exp, got["sets"])):
                it = g["it"]
                m = dict(map(tuple, it))
                if e["known"]:
                    if it != e["m"]:
                        no("set %d holds %s, not %s" % (i + 1, it, e["m"]))
                elif not set(map(tuple, e["m"])) <= set(map(tuple, it)) or [x for x, _ in it] != sorted(m):
                    no("set %d holds %s, without %s" % (i + 1, it, e["m"]))
                if g["n"] != len(it) or g["empty"] != (not it) or not g["room"] or g["at"] != [m.get(x + 1, 0) for x in range(len(c["keys"]))]:
                    no("set %d: size %s, empty %s, lookups %s of %s" % (i + 1, g["n"], g["empty"], g["at"], it))
            for i, row in enumerate(got["eq"]):
                for j, v in enumerate(row):
                    same = got["sets"][i]["it"] == got["sets"][j]["it"]
                    if (v & 1) != same or same and v != 3:
                        no("sets %d and %d compare as %s" % (i + 1, j + 1, v))
    ctx.sample(cases[-1])


# ---------------------------------------------------------------- C21

POOL = "SPECIFICATION Spec\nINVARIANT Canonical\nCONSTRAINT Explained\nCHECK_DEADLOCK FALSE\n"


def c21(ctx):
    rnd = random.Random(ctx.seed + 21)
    u = Units(ctx)
    plans = []

    def intern(b, how="n"):
        if how == "z" and 0 in b:
            how = "n"
        return dict(k="intern", s=list(b), how=how)
    ST = dict(k="stats", s=[], how="n")
    hows = "nzsv"
    # all bytes, alone, and next to valid characters
    for lo in range(0, 256, 16):
        ops = []
        for c in range(lo, lo + 16):
            ops += [intern([c]), intern([97, c, 98]), intern([c], "s")]
        plans.append(ops + [ST])
    plans.append([intern(range(0, 64)), intern(range(64, 128)), intern(range(128, 192)), intern(range(192, 256)), ST, intern([95] * 64), ST])
    # all short texts over valid, invalid and replaced characters
    alpha = [97, 65, 95, 32, 0, 128, 94]
    texts = [[]] + [[a] for a in alpha] + [[a, b] for a in alpha for b in alpha]
    for _ in range(ctx.scale(40, 400)):
        ops = [intern(rnd.choice(texts), rnd.choice(hows)) for _ in range(30)]
        for k in range(3):
            ops.insert(rnd.randrange(len(ops)), ST)
        plans.append(ops + [ST])
    for _ in range(ctx.scale(60, 800)):
        pool = [[rnd.randrange(256) if rnd.random() < .3 else rnd.choice(b"abcXYZ019-_.~^ /:") for _ in range(rnd.choice([0, 1, 2, 3, 7, 8, 15, 16, 17, 33, 64, 129, 240, 241, 300]))] for _ in range(6)]
        pool += [[95 if not chr(c).isalnum() or c > 127 else c for c in s] for s in pool[:3]]
        pool += [s + [rnd.choice([0, 95, 97])] for s in pool[:2]]
        plans.append([intern(rnd.choice(pool), rnd.choice(hows)) if rnd.random() < .85 else ST for _ in range(ctx.scale(24, 40))] + [ST])
    cases = []
    for i, ops in enumerate(plans):
        cases.append(dict(u="pool", ops=ops))
        if i % 2 == 0:
            cases.append(dict(u="pool", ops=ops, **{"global": 1}))
    # a table that grows a lot: judged in pieces would be long; the last part of it
    rs = u.run(cases, chunk=10)
    hists = []
    for c, r in zip(cases, rs):
        r = r["r"]
        for q in r["res"]:
            if q["z"] != 0:
                raise Rejected("a reference is not terminated", dict(driver="drv_units", case=c, result=r))
        n = len(c["ops"])
        hists.append({"open": "global" in c, "st": r["st"], "ops": [dict(k=o["k"], s=o["s"]) for o in c["ops"]],
                      "pre": [list(range(1, i + 1)) for i in range(n)], "res": [dict(p=q["p"], t=q["t"], u=q["u"], st=q["st"]) for q in r["res"]]})
    judge(ctx, "Pool", hists, cases, POOL)
    ctx.notes["histories"] = len(hists)
    ctx.sample(dict(case=cases[-1]["ops"][:3], result=rs[-1]["r"]["res"][:3]))
    # many strings: as many references as contents, and the numbers of the pool
    for k in range(ctx.scale(2, 6)):
        n = ctx.scale(3000, 40000)
        ops = [intern(("s%d %d" % (i % (n // 2), i % 7)).encode()) for i in range(n)] + [ST]
        c = dict(u="pool", ops=ops)
        r = u.run([c])[0]["r"]
        by, total = {}, 0
        for o, q in zip(ops[:-1], r["res"]):
            t = bytes(q["t"])
            if by.setdefault(t, q["p"]) != q["p"] or q["t"] != q["u"] or t != bytes(95 if x == 32 else x for x in o["s"]):
                raise Rejected("interning %r gives %r, another reference, or does not stay" % (o, t), dict(driver="drv_units", case=o))
        want = [n - len(by), len(by), len(by), sum(len(t) + 1 for t in by)]
        if len(set(by.values())) != len(by) or r["res"][-1]["st"] != want:
            raise Rejected("after %d strings: statistics %s, expected %s" % (n, r["res"][-1]["st"], want), dict(driver="drv_units", case="many"))


# ---------------------------------------------------------------- C26

def c26(ctx):
    rnd = random.Random(ctx.seed + 26)
    u = Units(ctx)
    ports = [0, 1, 53, 1234, 1235, 1236, 4660, 0x1234, 0x0ABC, 65535]

    def line(port, rx=None, drops=None, **k):
        v6 = rnd.random() < .3
        addr = ("%032X" % rnd.getrandbits(128)) if v6 else "%08X" % rnd.getrandbits(32)
        rport = rnd.choice([0, port, rnd.choice(ports)])
        f = ["%*d:" % (rnd.choice([4, 5]), rnd.choice([0, 7, 1234, 99999])), "%s:%04X" % (addr, port), "%s:%04X" % ("0" * len(addr), rport), "07",
             "%08X:%08X" % (rnd.choice([0, 5, port, 0xFFFFFFFF, rnd.getrandbits(31)]), rx if rx is not None else rnd.choice([0, 1, 0xABCD, 0xFFFFFFFF, rnd.getrandbits(32)])),
             "%02X:%08X" % (rnd.randrange(5), rnd.getrandbits(20)), "%08X" % rnd.getrandbits(16), "%5d" % rnd.randrange(70000), "%8d" % rnd.randrange(10), "%d" % rnd.getrandbits(31),
             "%d" % rnd.randrange(9), "%016x" % rnd.getrandbits(64), "%d" % (drops if drops is not None else rnd.choice([0, 1, 17, 4294967295, rnd.getrandbits(62)]))]
        s = " ".join(f)
        if rnd.random() < .1:
            s = s.lower()
        return s + " " * rnd.choice([0, 0, 2, 10])
    head = "   sl  local_address rem_address   st tx_queue rx_queue tr tm->when retrnsmt   uid  timeout inode ref pointer drops             "

    def other(port):
        r = rnd.random()
        l = line(port)
        if r < .3:
            return l[:rnd.randrange(len(l.rstrip().rsplit(" ", 1)[0]))]       # cut before its last field
        if r < .4:
            return ""
        if r < .5:
            return l + " " + " ".join("x%d" % k for k in range(rnd.choice([1, 50, 400])))     # more fields
        if r < .6:      # longer than any buffer, and with what looks like a line inside
            pad = rnd.choice([300, 1023, 4000, 4095 - len(l), 4096, 5000, 9000, 70000])
            return line(rnd.choice([2, 3])) + " " * max(0, pad - len(l)) + line(port)
        if r < .7:
            return "junk :: " + line(port)[5:40]
        if r < .8:
            return " ".join("%04X" % port for _ in range(rnd.choice([3, 16])))
        return line(rnd.choice(ports))
    cases = []
    for _ in range(ctx.scale(500, 4000)):
        port = rnd.choice(ports)
        r = rnd.random()
        ls = [other(rnd.choice([port, port, rnd.choice(ports)])) for _ in range(rnd.choice([0, 0, 1, 1, 2, 3, 5, 12]))]
        if rnd.random() < .6:
            for _ in range(rnd.choice([1, 1, 2])):
                ls.insert(rnd.randrange(len(ls) + 1), line(port))
        h = head if rnd.random() < .85 else rnd.choice(["", line(port), head + "x" * 5000, "h"])
        text = "\n".join([h] + ls) + ("\n" if rnd.random() < .9 else "")
        cases.append(dict(u="udp", file=text if rnd.random() < .97 else None, ports=sorted({port, rnd.choice(ports)})))
    cases.append(dict(u="udp", file="", ports=[0, 1]))
    big = "\n".join([head] + [line(2) for _ in range(ctx.scale(600, 3000))] + [line(1234)]) + "\n"      # larger than the buffer
    cases.append(dict(u="udp", file=big, ports=[1234, 1235]))
    nudp = len(cases)
    files = [None, "", "\n", "212992\n", "212992", " 4096 \n", "0\n", "1", "2147483647\n", "2147483648", "4294967296\n", "99999999999999999999", "-", "+", "+17\n", "x", "12x", "0x10", "1 2", "1.5",
             "  ", "007\n", 0]
    files += ["%d\n" % rnd.getrandbits(rnd.randrange(1, 32)) for _ in range(20)]
    files += ["%d%s" % (rnd.randrange(10 ** 6), "\n" * k) for k in (1, 100, 4090, 4094, 4095, 4096, 5000, 70000)]
    files += ["9" * k for k in (100, 4095, 4096, 4097, 10000)] + ["x" * k for k in (4095, 4096, 4097, 10000)]
    files = [f for f in files if not (isinstance(f, str) and f.startswith("9999") and len(f) > 20000)]
    cases.append(dict(u="max", files=files))
    rs = u.run(cases, chunk=40)
    hists, owner = [], []
    for c, r in zip(cases[:nudp], rs):
        hists.append(dict(k="udp", there=c["file"] is not None, lines=[[ord(x) for x in l[:2000]] for l in (c["file"] or "").split("\n")], ports=c["ports"],
                          r=[[limbs(int(x) & (2 ** 64 - 1)) for x in q] for q in r["r"]]))
        owner.append(c)
    r = rs[nudp]["r"]
    for i, f in enumerate(files):
        isf = isinstance(f, str)
        hists.append(dict(k="max", there=isf, file=[ord(x) for x in f] if isf else [], r=[limbs(r[2 * i] & (2 ** 64 - 1)), limbs(r[2 * i + 1] & (2 ** 64 - 1))]))
        owner.append(dict(u="max", files=[f]))
    try:
        real = open("/proc/sys/net/core/rmem_max").read()
        hists.append(dict(k="max", there=True, file=[ord(x) for x in real], r=[limbs(r[-1]), limbs(r[-1])]))
    except OSError:
        hists.append(dict(k="max", there=False, file=[], r=[limbs(r[-1]), limbs(r[-1])]))
    owner.append(dict(u="max", files=[]))
    judge(ctx, "Kernel", hists, owner, what=lambda k: "%s: %s" % (json.dumps(owner[k])[:1200], hists[k]["r"]))
    ctx.sample(owner[0])


# ---------------------------------------------------------------- C27

def c27(ctx):
    rnd = random.Random(ctx.seed + 27)
    u = Units(ctx)
    sets = [(["/", ":", "?", "a"], ctx.scale(7, 9)), (["://", "/", "?", "h", ":", "#"], ctx.scale(5, 7)), (["http://", "host", ":80", "/p", "?q=", "/", "%20"], ctx.scale(5, 6))]
    cfg = "SPECIFICATION Spec\nCONSTANTS\nTokens <- MCTokens\nMaxTokens = %d\nINVARIANT Sound\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
    rs = T.run_many([dict(module="Paths", body="MCTokens == {%s}" % ", ".join(T.tla([ord(c) for c in t]) for t in ts), cfg=cfg % n, timeout=600) for ts, n in sets], 3)
    ctx.add_model(rs)
    want = {}
    for r in rs:
        for s, p in r.out:
            want["".join(map(chr, s))] = "".join(map(chr, p))
    ss = sorted(want)
    ctx.log("%d URLs" % len(ss))
    chunks = [ss[i:i + 500] for i in range(0, len(ss), 500)]
    cases = [dict(u="path", s=c) for c in chunks]
    for c, r in zip(chunks, u.run(cases, chunk=10)):
        for s, g in zip(c, r["r"]):
            if g != want[s]:
                raise Rejected("the path of %r is %r, not %r" % (s, g, want[s]), dict(driver="drv_units", case=dict(u="path", s=[s])))
            ctx.distinct.add(s)
    ctx.notes["urls"] = len(ss)
    ctx.sample([[s, want[s]] for s in ss[-5:]])


# ---------------------------------------------------------------- C28

def c28(ctx):
    rnd = random.Random(ctx.seed + 28)
    u = Units(ctx)
    free = T.run(module="Watch", body="", cfg="SPECIFICATION FreeSpec\nINVARIANT NotStale\nCHECK_DEADLOCK FALSE\n", files=[("hist.json", "[]")], timeout=600)
    ctx.add_model(free)
    op = lambda k, a=0, b=0, x=0: dict(k=k, a=a, b=b, x=x)
    plans = []
    for first in (0, 1):
        for d in (0, 1, 1999, 2000, 2001, 2500, 10000, 3600000):
            for ch in ("make", "remove"):
                pre = [op("make", 1)] if first else []
                plans.append(pre + [op("new", 1, 1), op("ask", 1), op(ch, 1), op("adv", x=d), op("ask", 1), op("ask", 1), op("adv", x=d), op("ask", 1)])
                for mv in ("copy", "move", "assign", "massign"):
                    plans.append(pre + [op("new", 1, 1), op("new", 2, 2), op("ask", 1), op("adv", x=d), op(ch, 1), op("ask", 1), op(mv, 2, 1), op("ask", 2), op("adv", x=d), op("ask", 2), op("make", 2), op("adv", x=3000), op("ask", 2)])
    for _ in range(ctx.scale(1500, 20000)):
        alive, ops = set(), []
        for _ in range(rnd.randrange(4, 40)):
            r = rnd.random()
            if r < .25:
                ops.append(op("adv", x=rnd.choice([0, 1, 500, 1000, 1999, 2000, 2001, 2002, 4001, 86400000])))
            elif r < .45:
                ops.append(op(rnd.choice(["make", "remove"]), rnd.choice([1, 2])))
            elif r < .55 or not alive:
                a = rnd.randrange(1, 5)
                alive.add(a)
                ops.append(op("new", a, rnd.choice([1, 2])))
            elif r < .85:
                ops.append(op("ask", rnd.choice(sorted(alive))))
            else:
                k = rnd.choice(["copy", "move", "assign", "massign"])
                b = rnd.choice(sorted(alive))
                a = rnd.choice(sorted(alive)) if k in ("assign", "massign") else rnd.randrange(1, 5)
                if a == b and k != "assign":
                    continue
                ops.append(op(k, a, b))
                alive.add(a)
                if k in ("move", "massign"):
                    alive.discard(b)
        plans.append(ops)
    # (at most an hour at a time: the specification counts in milliseconds)
    for p in plans:
        for o in p:
            o["x"] = min(o["x"], 3600000)
    cases = [dict(u="watch", start=1700000000 * 10 ** 9 + rnd.randrange(10 ** 9), ops=p) for p in plans]
    rs = u.run(cases, chunk=100)
    hists = [dict(ops=p, res=r["r"]) for p, r in zip(plans, rs)]
    judge(ctx, "Watch", hists, cases)
    ctx.notes["histories"] = len(hists)
    ctx.sample(hists[0])
