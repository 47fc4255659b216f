"""C22, C23, C24: concurrent use. The driver explores interleavings of small programs of the real code
under the scheduler of harness/dsched.cc; TLC searches, for every distinct history, an order of the
steps of the specification that explains it."""
import itertools, json, random, threading
from . import build as B, tlc as T
from .core import Rejected, drive

BAD = -77777777


def whole(x, scale=1):
    x = float(x) * scale
    r = round(x) if abs(x) < 2e9 else BAD
    return r if abs(x - r) <= 1e-6 * max(1, abs(r)) else BAD


def sched_build(name, files, groups, out):
    try:
        out.append(B.build(name, files + ["vclock.cc", "dsched.cc"], groups, variant="sched"))
    except Exception as e:
        out.append(e)


CFG = """SPECIFICATION Spec
CONSTANTS
Sec = 1000
Free = %s
INVARIANT Consistent
CONSTRAINT %s
CHECK_DEADLOCK FALSE
"""


POOL = "SPECIFICATION Spec\nINVARIANT Canonical\nCONSTRAINT Explained\nCHECK_DEADLOCK FALSE\n"


def explain(ctx, module, cfg, hists, extra="", par=8, heap="2g"):
    """Indices of the histories that the specification cannot explain."""
    n = len(hists)
    chunk = max(1, (n + par - 1) // par)
    jobs = []
    for i in range(0, n, chunk):
        jobs.append(dict(module=module, body=extra + '\n', cfg=cfg,
                         files=[("hist.json", json.dumps(hists[i:i + chunk]))], timeout=800, heap=heap))
    rs = T.run_many(jobs, par)
    ctx.add_model(rs)
    ok = set()
    for j, r in enumerate(rs):
        ok |= {j * chunk + x - 1 for x in r.out}
    return [i for i in range(n) if i not in ok]


def precedence(ops):
    return [[j + 1 for j in range(32) if o["pre"] >> j & 1] for o in ops]


# ---------------------------------------------------------------- C22

AMOUNTS = {"c": [1, 2, 4, 0], "g": [1, 2, 3], "m": [3, 1, 2], "C": [5, 9, 12, 3], "U": [5, 9, 12, 3],
           "d": [2, 5, 1, 0], "t": [2, 5, 1, 0], "A": [8, 16, 24]}
XS = [(6, 1000), (18, 2000), (36, 4000), (42, 5000)]
SCALE = {("t", "totalTime"): 1e9, ("t", "totalOfSquares"): 1e18, ("t", "max"): 1e9}


def meter_cases(ctx):
    rnd = random.Random(ctx.seed)
    res = []
    for ty in "cgmCUXdt":
        am = XS if ty == "X" else [(a, 0) for a in AMOUNTS[ty]]

        def u(i):
            return dict(k="upd", v=am[i % len(am)][0], x=am[i % len(am)][1])
        M = dict(k="measure", v=0, x=0)
        shapes = [
            ([], [[u(0)], [u(1)], [M, M]]),
            ([], [[u(0), u(1)], [M, M]]),
            ([], [[u(1), u(0)], [u(2)], [M]]),
            ([], [[u(0)], [u(1)], [u(2)]]),
            ([u(0), M], [[u(1), u(2)], [M, M]]),
            ([u(0), M], [[u(1)], [u(2)], [M]]),
            ([u(2), M, u(0)], [[u(1), u(3)], [M]]),
            ([u(0)], [[u(1), u(1)], [u(2), M]]),
            ([u(1)], [[u(1)], [u(1)], [M]]),
        ]
        for _ in range(ctx.scale(3, 30)):
            setup = [M if rnd.random() < .3 else u(rnd.randrange(4)) for _ in range(rnd.randrange(3))]
            a = [u(rnd.randrange(4)) for _ in range(rnd.randrange(1, 3))]
            b = [u(rnd.randrange(4)) for _ in range(rnd.randrange(0, 3))]
            m = [M if i == 0 or rnd.random() < .6 else u(rnd.randrange(4)) for i in range(rnd.randrange(1, 4))]
            shapes.append((setup, [t for t in (a, b, m) if t]))
        for setup, threads in shapes:
            res.append((ty, setup, threads, [M, u(0), M]))
    return res


def concrete(ty, o):
    if o["k"] == "measure":
        return dict(k="hmeasure", h=0)
    v = o["v"]
    return dict(k="hupd", h=0, v=str(v) if ty == "U" else v, x=o["x"] * 1000000)


def c22(ctx):
    ex = []
    th = threading.Thread(target=sched_build, args=("drv_conc", ["drv_conc.cc"], ["core", "server"], ex))
    th.start()
    cases = meter_cases(ctx)
    free = []
    for ty, setup, threads, fin in cases:
        pre, ops = [], []
        for t in threads:
            for i, o in enumerate(t):
                pre.append([len(ops) - j for j in range(i)])
                ops.append(o)
        free.append(dict(ty=ty, f="", setup=setup, ops=ops, pre=pre, res=[[] for _ in ops]))
    fr = []

    def model():
        try:
            fr.append(T.run(module="Conc", body='Anything == TRUE\n',
                            cfg=CFG % ("TRUE", "Anything"), files=[("hist.json", json.dumps(free))], timeout=800, workers=2))
        except Exception as e:
            fr.append(e)
    ft = threading.Thread(target=model)
    ft.start()
    th.join()
    if isinstance(ex[0], Exception):
        raise ex[0]
    jobs = []
    for i, (ty, setup, threads, fin) in enumerate(cases):
        jobs.append(dict(ttl=900 * 10 ** 9, start=2000000 * 10 ** 9, registry=0, preempt=ctx.scale(4, 6), runs=ctx.scale(20000, 300000), random=ctx.scale(2000, 50000), seed=ctx.seed + i,
                         setup=[dict(k="hnew", ty=ty, n="a", t=[])] + [concrete(ty, o) for o in setup],
                         threads=[[concrete(ty, o) for o in t] for t in threads], final=[concrete(ty, o) for o in fin]))
    rs = drive(ex[0], jobs, timeout=800, chunk=4)
    hists, owner = [], []
    runs = full = 0
    for i, ((ty, setup, threads, fin), r) in enumerate(zip(cases, rs)):
        if r is None or r.get("skipped"):
            continue
        if "crash" in r:
            raise Rejected("%s: %s" % (ty, r["crash"]), dict(driver="drv_conc", case=jobs[i], error=r))
        runs += r["runs"]
        full += r["exhausted"]
        ops = [o for t in threads for o in t] + fin
        for h in r["hist"]:
            res = []
            for o in h["ops"]:
                res.append([[p[0].split("/")[1], whole(p[1], SCALE.get((ty, p[0].split("/")[1]), 1))] for p in o["pub"]])
            for f in ("n", "s", "q", "mx") if ty in "dt" else ("",):
                hists.append(dict(ty=ty, f=f, setup=setup, ops=ops, pre=precedence(h["ops"]), res=res))
                owner.append((i, h))
    ctx.log("%d scenarios (%d to the bound), %d executions, %d histories" % (len(cases), full, runs, len(hists)))
    ctx.traces += runs
    ctx.notes.update(scenarios=len(cases), exhausted_to_preemption_bound=full, executions=runs, distinct_histories=len({id(h) for _, h in owner}))
    ft.join()
    if isinstance(fr[0], Exception):
        raise fr[0]
    ctx.add_model(fr[0])
    bad = explain(ctx, "Conc", CFG % ("FALSE", "Explained"), hists)
    if bad:
        k = min(bad, key=lambda j: len(hists[j]["ops"]))
        i, h = owner[k]
        raise Rejected("%s: no order of the operations explains %s" % (hists[k]["ty"], json.dumps(dict(ops=hists[k]["ops"], pre=hists[k]["pre"], res=hists[k]["res"]))),
                       dict(driver="drv_conc", case=jobs[i], history=h, schedule=h["schedule"]))
    ctx.sample(dict(scenario=jobs[owner[0][0]], history=owner[0][1]))
    pool_histories(ctx, ex[0])


def pool_histories(ctx, exe):
    """Concurrent interning in one pool."""
    rnd = random.Random(ctx.seed + 7)
    words = ["a", "a!", "a?", "b_", "b!", "", "k.v", "caf\xe9", "a_"]
    jobs = []
    for n in range(ctx.scale(24, 200)):
        some = [rnd.choice(words) for _ in range(3)]
        def op():
            return dict(k="stats") if rnd.random() < .2 else dict(k="intern", s=rnd.choice(some))
        threads = [[op() for _ in range(rnd.randrange(1, 4))] for _ in range(rnd.choice([2, 2, 3]))]
        jobs.append(dict(ttl=0, start=10 ** 15, registry=0, preempt=ctx.scale(3, 4), runs=ctx.scale(3000, 40000), random=ctx.scale(500, 5000), seed=n,
                         setup=[dict(k="intern", s=words[n % len(words)])] * (n % 2), threads=threads, final=[dict(k="intern", s=w) for w in some] + [dict(k="stats")]))
    rs = drive(exe, jobs, timeout=800, chunk=3)
    hists, owner, runs = [], [], 0
    for j, r in zip(jobs, rs):
        if r is None or r.get("skipped"):
            continue
        if "crash" in r:
            raise Rejected("string pool: %s" % r["crash"], dict(driver="drv_conc", case=j, error=r))
        runs += r["runs"]
        ops = [o for t in j["threads"] for o in t] + j["final"]
        ops = [dict(k=o["k"], s=[ord(c) for c in o.get("s", "")]) for o in ops]
        for h in r["hist"]:
            res = [dict(p=o["p"], t=[ord(c) for c in o["text"]], u=[ord(c) for c in o.get("again", "")], st=[]) if q["k"] == "intern" else
                   dict(p=0, t=[], u=[], st=[int(x) for x in o["text"].split()]) for q, o in zip(ops, h["ops"])]
            st = [0, 0, 0, 0]
            known = [ord(c) for o in j["setup"] for c in o["s"]]
            if j["setup"]:      # known to nobody: its statistics are what they are
                st = [0, 1, 1, len(known) + 1]
            hists.append(dict(open=bool(j["setup"]), st=st, ops=ops, pre=precedence(h["ops"]), res=res))
            owner.append((j, h))
    ctx.log("string pool: %d executions, %d histories" % (runs, len(hists)))
    ctx.traces += runs
    ctx.notes.update(pool_executions=runs, pool_histories=len(hists))
    bad = explain(ctx, "Pool", POOL, hists)
    if bad:
        j, h = owner[bad[0]]
        raise Rejected("string pool: no order of the operations explains %s" % json.dumps(hists[bad[0]]), dict(driver="drv_conc", case=j, history=h))


# ---------------------------------------------------------------- C23

START = 2000000
REGCFG = """SPECIFICATION Spec
CONSTANTS
Sec = 1000
Free = %s
INVARIANT Consistent
%sCHECK_DEADLOCK FALSE
"""


def reg_op(k, ty="", n="", v=0, x=0, w=0):
    return dict(k=k, ty=ty, n=n, v=v, x=x, w=w)


def reg_concrete(o):
    k, ty = o["k"], o["ty"]
    c = dict(k=k)
    if k in ("upd", "get"):
        c.update(ty=ty, n=o["n"], t=[], v=str(o["v"]) if ty == "U" else o["v"], x=o["x"] * 1000000)
    elif k == "cache" and o["w"]:
        return dict(k="line", s="%s:%s:%d" % (ty, o["n"], o["v"]))
    elif k == "cache":
        c.update(ty=ty, n=o["n"], t=[], v=o["v"])
    elif k in ("del",):
        c.update(ty=ty, n=o["n"], t=[])
    elif k in ("delall", "list", "cexpire"):
        c.update(ty=ty)
    elif k in ("sleep", "adv"):
        c.update(x=o["x"] * 1000000)
    elif k == "ctag":
        c.update(ty=ty, s=o["n"])
    return c


def reg_result(op, o, types):
    pub = []
    for key, v in o["pub"]:
        q = (key.split("/") + ["", ""])[:3]
        if op["k"] == "list":
            if op["ty"] == "A":
                ns = int(float(v))
                pub.append([q[0], "", "", -1 if ns == 0 else round(ns / 1e9) - START])
            else:
                pub.append([q[0], "", "", BAD if v == "nan" else whole(v)])
        else:
            ty = "t" if q[0] in types.get("t", ()) else ""
            pub.append([q[0], q[1], q[2], whole(v, SCALE.get((ty, q[1]), 1))])
    return dict(pub=pub, p=o["p"], b=o["b"], tags=[kv.split("=") for kv in o["text"].split()] if op["k"] == "ctags" else [])


TTL = 900 * 1000


def reg_scenarios(ctx, rnd):
    """(ttl ticks, age gauge limit, setup, threads, final, early)"""
    U, op = 1, reg_op
    M, X = op("measure"), op("expire")
    res = []

    def val(ty):
        return 0 if ty == "A" else rnd.choice([1, 2, 5])

    def upd(ty, n, x=0):
        return op("upd", ty, n + "." + ty, val(ty), rnd.choice([1000, 2000]) if ty == "X" else x)

    def get(ty, n, x=0):
        return op("get", ty, n + "." + ty, 0, x)
    for ty in "cgmCUXdtA":
        u = lambda n="a": upd(ty, n)
        g = lambda n="a": get(ty, n)
        stale = [u(), op("adv", x=TTL + 1000)]
        for setup, threads in [
            ([], [[u()], [u()], [M]]),
            (stale, [[u()], [X]]),
            (stale, [[u()], [X], [M]]),
            (stale, [[g(), u()], [X], [u()]]),
            (stale, [[X], [X], [u()]]),
            ([], [[g()], [g()], [g()]]),
            ([u("b")], [[u(), u("b")], [M, op("size")]]),
            ([], [[u()], [u("b")], [op("size")]]),
        ]:
            if ty == "A":
                threads = [[o for o in t] for t in threads]
            res.append((TTL, 1000, setup, threads, [M], 0))
        if ty in "gA":
            d = op("del", ty, "a." + ty)
            D = op("delall", ty)
            L = op("list", ty)
            for setup, threads in [
                ([u()], [[d], [d]]),
                ([u()], [[d], [d], [u()]]),
                ([u(), u("b")], [[L], [d, u()]]),
                ([u(), u("b")], [[L], [D]]),
                ([u(), u("b")], [[L], [D], [X]]),
                ([u()], [[u(), u("b")], [D], [M]]),
                ([u()], [[d, g()], [g(), u()]]),
                (stale, [[L], [X], [d]]),
                ([], [[u()], [D], [L]]),
            ]:
                res.append((TTL, 1000, setup, threads, [M, L], 0))
    # gauges with a time to live of their own
    for setup, threads in [
        ([], [[upd("g", "a", 7000)], [upd("g", "a", 9000)], [M]]),
        ([upd("g", "a", 7000), op("adv", x=8000)], [[upd("g", "a", 7000)], [X]]),
        ([upd("g", "a", 7000), op("adv", x=8000)], [[upd("g", "a", 7000)], [M]]),
        ([upd("g", "a", 7000), op("adv", x=8000)], [[get("g", "a", 20000)], [X], [M]]),
    ]:
        res.append((TTL, 1000, setup, threads, [op("adv", x=8000), M], 0))
    # the limit of age gauges
    for setup, threads in [
        ([upd("A", "a")], [[upd("A", "b")], [upd("A", "c")]]),
        ([], [[upd("A", "a")], [upd("A", "b")], [upd("A", "c")]]),
        ([upd("A", "a"), upd("A", "b")], [[upd("A", "c"), upd("A", "a")], [op("del", "A", "a.A")]]),
    ]:
        res.append((TTL, 2, setup, threads, [M, op("size")], 0))
    # percentile caches
    for ty in "TD":
        c = lambda n="p", w=0: op("cache", ty, n, rnd.choice([1, 3, 9]), 0, w)
        cx = op("cexpire", ty)
        for setup, threads, early in [
            ([], [[c()], [c()]], 0),
            ([], [[c()], [c("q")], [M]], 0),
            ([c(), op("adv", x=121000)], [[c()], [cx]], 0),
            ([c(), op("adv", x=121000)], [[cx], [cx], [c()]], 0),
            ([c(), op("adv", x=TTL + 1000)], [[c()], [X]], 0),
            ([c(), op("adv", x=TTL + 1000)], [[c()], [X], [cx]], 0),
            ([], [[c()], [op("sleep", x=121000), cx]], 1),
            ([], [[c(), c()], [op("sleep", x=121000), cx]], 1),
        ]:
            res.append((TTL, 1000, setup, threads, [M], early))
    ln = op("cache", "D", "p", 3, 0, 1)
    res.append((TTL, 1000, [ln, op("adv", x=TTL + 1000)], [[ln, ln], [X], [M]], [M], 0))
    # stalls
    for ty in "cgdm":
        res.append((TTL, 1000, [upd(ty, "a")], [[upd(ty, "a")], [op("sleep", x=TTL + 1000), X]], [M], 1))
        res.append((TTL, 1000, [], [[upd(ty, "a"), upd(ty, "a")], [op("sleep", x=TTL + 1000), X, M]], [M], 1))
    # common tags
    for _ in range(4):
        t = lambda: op("ctag", rnd.choice("kj"), rnd.choice(["v", "w", ""]))
        res.append((TTL, 1000, [t()], [[t(), t()], [t()], [op("ctags"), op("ctags")]], [op("ctags")], 0))
    # whatever
    for _ in range(ctx.scale(40, 600)):
        kinds = rnd.sample("cgmCUXdtA", rnd.choice([1, 1, 2]))
        names = ["a", "b"]
        gone = rnd.random() < .5

        def any_op():
            ty, n, r = rnd.choice(kinds), rnd.choice(names), rnd.random()
            if r < .4:
                return upd(ty, n, rnd.choice([0, 0, 7000]) if ty == "g" else 0)
            if r < .5:
                return get(ty, n)
            if r < .62:
                return X
            if r < .74:
                return M
            if ty in "gA":
                return rnd.choice([op("del", ty, n + "." + ty), op("delall", ty), op("list", ty)])
            return op("size") if not gone else upd(ty, n)
        setup = [upd(rnd.choice(kinds), rnd.choice(names)) for _ in range(rnd.randrange(3))]
        if gone:
            setup.append(op("adv", x=rnd.choice([6000, TTL + 1000])))
        threads = [[any_op() for _ in range(rnd.choice([1, 2]))] for _ in range(rnd.choice([2, 2, 3]))]
        res.append((TTL, rnd.choice([1, 1000]), setup, threads, [M], 0))
    return res


def c23(ctx):
    rnd = random.Random(ctx.seed + 23)
    ex = []
    th = threading.Thread(target=sched_build, args=("drv_conc", ["drv_conc.cc"], ["core", "server"], ex))
    th.start()
    sc = reg_scenarios(ctx, rnd)
    heads, free = [], []
    for ttl, limit, setup, threads, fin, early in sc:
        ops = [o for t in threads for o in t]
        types = sorted({o["ty"] for o in setup + ops + fin if o["k"] in ("upd", "get", "list")} |
                       {t for o in setup + ops if o["k"] == "cache" for t in ("c", "t" if o["ty"] == "T" else "d")})
        head = dict(ttl=ttl, limit=limit, types=types, setup=setup)
        heads.append((head, {"t": {o["n"] for o in setup + ops if o["ty"] in "tT"}}))
        pre = []
        for t in threads:
            b = len(pre)
            pre += [list(range(b + 1, b + i + 1)) for i in range(len(t))]
        if len(ops) <= 3 or ctx.thorough and len(ops) <= 4:
            free.append(dict(head, ops=ops, pre=pre, res=[dict(pub=[], p=0, b=0, tags=[]) for _ in ops], f="n"))
    fr = []

    def model():
        try:
            fr.append(T.run(module="ConcReg", body="", cfg=REGCFG % ("TRUE", ""), files=[("hist.json", json.dumps(free))], timeout=800, workers=2))
        except Exception as e:
            fr.append(e)
    ft = threading.Thread(target=model)
    ft.start()
    th.join()
    if isinstance(ex[0], Exception):
        raise ex[0]
    jobs = []
    for i, (ttl, limit, setup, threads, fin, early) in enumerate(sc):
        jobs.append(dict(ttl=ttl * 10 ** 6, start=START * 10 ** 9, registry=1, status=0, limit=limit, early=early,
                         preempt=2 if early else ctx.scale(2, 3), runs=ctx.scale(1500, 40000), random=ctx.scale(200, 10000), seed=ctx.seed + i,
                         setup=[reg_concrete(o) for o in setup], threads=[[reg_concrete(o) for o in t] for t in threads],
                         final=[reg_concrete(o) for o in fin]))
    rs = drive(ex[0], jobs, timeout=850, chunk=2)
    hists, owner, runs, full = [], [], 0, 0
    for i, r in enumerate(rs):
        if r is None or r.get("skipped"):
            continue
        if "crash" in r:
            raise Rejected("%s: %s" % (json.dumps(jobs[i]["threads"]), r["crash"]), dict(driver="drv_conc", case=jobs[i], error=r))
        runs += r["runs"]
        full += r["exhausted"]
        ops = [o for t in sc[i][3] for o in t] + sc[i][4]
        head, types = heads[i]
        for h in r["hist"]:
            for f in ("n", "s", "q", "mx") if {"t", "d"} & set(head["types"]) else ("n",):
                hists.append(dict(head, f=f, ops=ops, pre=precedence(h["ops"]), res=[reg_result(q, o, types) for q, o in zip(ops, h["ops"])]))
                owner.append((i, h))
    ctx.log("%d scenarios (%d to the bound), %d executions, %d histories" % (len(sc), full, runs, len(hists)))
    ctx.traces += runs
    ctx.notes.update(scenarios=len(sc), exhausted_to_preemption_bound=full, executions=runs, distinct_histories=len(hists))
    ft.join()
    if isinstance(fr[0], Exception):
        raise fr[0]
    ctx.add_model(fr[0])
    bad = explain(ctx, "ConcReg", REGCFG % ("FALSE", "CONSTRAINT Explained\n"), hists)
    if bad:
        k = min(bad, key=lambda j: len(hists[j]["ops"]))
        i, h = owner[k]
        raise Rejected("no order of the steps of the operations explains %s" % json.dumps(hists[k]),
                       dict(driver="drv_conc", case=jobs[i], history=h, schedule=h["schedule"]))
    ctx.sample(dict(scenario=jobs[owner[0][0]], history=owner[0][1]))
