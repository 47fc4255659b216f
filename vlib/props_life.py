"""C24: starting and stopping (Lifecycle.tla)."""
import itertools, json, random, shutil, tempfile, threading
from . import tlc as T
from .core import Rejected, close, drive, num
from .props_conc import explain, sched_build

FREE = """SPECIFICATION Spec
CONSTANTS
Free = TRUE
Programs <- MCPrograms
INVARIANT Prompt
INVARIANT Silent
CONSTRAINT Short
CHECK_DEADLOCK FALSE
"""
JUDGE = """SPECIFICATION Spec
CONSTANTS
Free = FALSE
Programs <- MCPrograms
INVARIANT Prompt
INVARIANT Silent
CONSTRAINT Explained
CHECK_DEADLOCK FALSE
"""
NAMES = {(1, 1): "sb", (1, 0): "se", (2, 1): "tb", (2, 0): "te", (3, 1): "pb", (4, 1): "m", (5, 1): "u", (8, 1): "raise", (9, 0): "end", (100, 1): "up"}


def events(ev):
    res = []
    for op, b, t in ev:
        if not b and op in (3, 13, 23):
            res.append(dict(k="pe", t=t, x=op // 10))
        elif op in (6, 7):
            res.append(dict(k="l", t=t, x=op - 6))
        else:
            res.append(dict(k=NAMES[op, b], t=t, x=0))
    return res


def c24(ctx):
    rnd = random.Random(ctx.seed + 24)
    ex, fr = [], []
    th = threading.Thread(target=sched_build, args=("drv_life", ["drv_life.cc"], ["core", "server"], ex))
    th.start()

    # the specification's own histories
    progs = []
    for ops in itertools.product(["start", "stop"], repeat=ctx.scale(4, 5)):
        for uri in (True, False):
            progs.append(dict(u="reg", uri=uri, exp=700, freq=1000, ttl=500, ops=["update"] + list(ops), until=ctx.scale(1400, 2000), steps={200}))

    def model():
        try:
            fr.append(T.run(module="Lifecycle", body="MCPrograms == " + T.tla(progs), cfg=FREE, files=[("hist.json", "[]")], timeout=800, workers=2))
        except Exception as e:
            fr.append(e)
    ft = threading.Thread(target=model)
    ft.start()

    cases = []
    S = [["start"], ["stop"], ["sleep", 2500]]
    some = [[[200, 0]], [[503, 100], [200, 50]], [[-1, 0], [200, 700], [503, 300], [503, 0], [503, 10], [400, 1]]]
    n = 0

    def reg(ops, uri, posts, **kw):
        nonlocal n
        n += 1
        cases.append(dict(dict(u="reg", uri=uri, freq=1000, exp=700, ttl=1500, posts=posts, ops=ops, preempt=1, runs=ctx.scale(250, 20000), random=ctx.scale(60, 2000),
                               seed=ctx.seed * 1000 + n), **kw))
    for k in range(1, 4):
        for ops in itertools.product(S, repeat=k):
            for uri, posts in ((1, some[0]), (0, some[0])) if k == 3 and not ctx.thorough else ((1, some[0]), (1, some[1]), (0, some[0])):
                reg([["update"]] + list(ops) + [["look"]], uri, posts)
    # every interleaving at one preemption
    for ops in ([["start"]], [["start"], ["stop"]], [["start"], ["sleep", 300], ["stop"]], [["start"], ["sleep", 1000], ["stop"]], [["start"], ["stop"], ["start"]]):
        for exp in (0, 700):
            reg(ops, 1, some[0], exp=exp, runs=ctx.scale(3000, 200000), random=0, preempt=ctx.scale(1, 2))
    # the stop while a publication waits for its answer or its next attempt
    for d in (50, 100, 250, 350, 700, 900, 1000, 1100, 1700, 2000, 2100):
        reg([["start"], ["sleep", d], ["stop"], ["sleep", 900], ["start"], ["sleep", 100]], 1, some[1 + n % 2])
    # long ones
    for _ in range(ctx.scale(12, 300)):
        ops = []
        for _ in range(rnd.randrange(5, 14)):
            r = rnd.random()
            ops.append(["start"] if r < .25 else ["stop"] if r < .45 else ["update"] if r < .6 else ["look"] if r < .75 else ["sleep", rnd.choice([1, 50, 150, 999, 1000, 1001, 1750, 3300])])
        reg(ops, rnd.choice([0, 1, 1, 1]), rnd.choice(some), freq=rnd.choice([200, 1000, 1001, 5000]), exp=rnd.choice([0, 450, 700, 3000]), ttl=rnd.choice([100, 1500, 4000]),
            runs=ctx.scale(60, 300), random=ctx.scale(60, 2000))
    # the server
    def srv(ops, **kw):
        nonlocal n
        n += 1
        cases.append(dict(dict(u="srv", uri=0, status=1, ops=ops, preempt=1, runs=ctx.scale(700, 20000), random=ctx.scale(300, 3000), seed=ctx.seed * 1000 + n), **kw))
    for soon in (0, 1):
        srv([], soon=soon)
        srv([["sleep", 1]], soon=soon)
        srv([["sleep", 30000]], soon=soon)
        srv([["update"]], soon=soon)
        srv([["update"], ["sleep", 40000], ["look"]], soon=soon, runs=ctx.scale(200, 3000))
    for _ in range(ctx.scale(4, 100)):
        ops = []
        for _ in range(rnd.randrange(3, 10)):
            r = rnd.random()
            ops.append(["update"] if r < .3 else ["look"] if r < .6 else ["sleep", rnd.choice([1000, 29999, 30000, 30001, 90000, 100000, 121000])])
        srv(ops, soon=rnd.choice([0, 1]), runs=ctx.scale(30, 300), random=ctx.scale(60, 1000))

    th.join()
    if isinstance(ex[0], Exception):
        raise ex[0]
    order = list(range(len(cases)))
    order.sort(key=lambda i: -cases[i]["runs"])
    d = tempfile.mkdtemp(prefix="life_")
    try:
        got = drive(ex[0], [cases[i] for i in order], args=[d], timeout=800, chunk=1)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    hists, own = [], []
    runs = whole = 0
    for i, r in zip(order, got):
        c = cases[i]
        if r is None or r.get("skipped"):
            continue
        if "crash" in r:
            raise Rejected("%s: %s" % (json.dumps(c)[:700], r["crash"]), dict(driver="drv_life", case=c, error=r))
        runs += r["runs"]
        whole += bool(r["exhausted"])
        for h in r["hist"]:
            hists.append(dict(u=c["u"], uri=bool(c["uri"]), freq=c.get("freq", 0), exp=c["exp"] if c["u"] == "reg" else 30000, ttl=c["ttl"] if c["u"] == "reg" else 120000, ev=events(h["ev"])))
            own.append(dict(case=c, schedule=h["schedule"]))
    ctx.notes.update(executions=runs, exhausted_programs=whole, programs=len(cases), histories=len(hists))
    ctx.log("%d executions, %d distinct histories" % (runs, len(hists)))
    bad = explain(ctx, "Lifecycle", JUDGE, hists, extra="MCPrograms == << >>")
    ctx.traces += len(hists)
    if bad:
        k = min(bad, key=lambda j: len(hists[j]["ev"]))
        raise Rejected("Lifecycle does not allow %s" % json.dumps([[e["k"], e["t"], e["x"]] for e in hists[k]["ev"]])[:1500], dict(driver="drv_life", **own[k]))
    ft.join()
    if isinstance(fr[0], Exception):
        raise fr[0]
    ctx.add_model([fr[0]])
    ctx.sample(dict(own[len(own) // 2], history=hists[len(own) // 2]["ev"]))


# ---------------------------------------------------------------- C29: what the daemon reports about itself

HOUSE = """SPECIFICATION Spec
CONSTANTS
MeterTtl = %(ttl)d
Status = %(status)s
Sec = 1000
Ops <- MCOps
Pick <- %(pick)s
Depth = %(depth)d
INVARIANT Bounded
INVARIANT Quiet
CONSTRAINT Emitting
CHECK_DEADLOCK FALSE
"""
HOPS = '''
Adv(dd) == [op |-> "adv", dt |-> dd]
Line(t, nn, text) == [op |-> "line", ty |-> t, n |-> nn, ok |-> TRUE, s |-> text]
Bad(text) == [op |-> "line", ty |-> "", n |-> "", ok |-> FALSE, s |-> text]
Table(qq, dd) == [op |-> "table", tab |-> <<qq, dd>>]
NoTable == [op |-> "table", tab |-> <<>>]
Measure == [op |-> "measure"]
DelAll(t) == [op |-> "delall", ty |-> t]
T1 == Line("T", "a", "T:a:1")
T2 == Line("T", "b,k=v", "T:b,k=v:0.5")
T3 == Line("T", "a", "T:a:-1")
D1 == Line("D", "a", "D:a:8")
D2 == Line("D", "c", "D:c:-3")
Other == Line("c", "c", "c:new.%s:1")
'''
POOL = dict(hit=0, miss=1, alloc=2, entries=3)


def house_case(f, h):
    ops = []
    for i, e in enumerate(h):
        o = e["o"]
        ops.append(["adv", o["dt"]] if o["op"] == "adv" else ["line", o["s"].replace("%s", "%d.%d" % (f["n"], i))] if o["op"] == "line" else
                   ["table"] + list(o["tab"]) if o["op"] == "table" else ["delall", o["ty"]] if o["op"] == "delall" else ["measure"])
    return dict(u="house", v4=f["v4"], status=int(f["status"]), ttl=f["ttl"], ops=ops)


def house_diff(h, r):
    """None or (step, what)"""
    rounds = [(r["before"], r["rounds"][0])] + [(r["rounds"][i], r["rounds"][i + 1]) for i in range(1, len(r["rounds"]) - 1, 2)]
    seen = iter(r["pub"])
    for i, e in enumerate(h):
        if e["o"]["op"] != "measure":
            continue
        got = {}
        for p in next(seen):
            if p["n"].startswith("spectatord."):
                k = (p["n"], tuple(sorted(map(tuple, p["t"]))))
                if k in got:
                    return i, "%s is reported twice" % (k,)
                got[k] = float(p["v"])
        for p in e["r"]["pub"]:
            k, v = (p["n"], tuple(sorted(map(tuple, p["t"])))), p["v"]
            g = got.pop(k, None)
            if "to" in v:
                j = POOL[v["k"]]
                lo, hi = (rounds[v["to"]][x][j] - (rounds[v["from"]][1 - x][j] if v["from"] >= 0 else 0) for x in (0, 1))
                if g is None and (v["from"] < 0 or lo > 0) or g is not None and not lo <= g <= hi:
                    return i, "%s: %s, the string pool had %s to %s" % (k, g, lo, hi)
            else:
                want = num(v["v"]) if not (isinstance(v["v"], dict) and "u1" in v["v"]) else v["v"]["u1"]
                if g is None or not close(g, want, 1e-9):
                    return i, "%s: specification %s, implementation %s" % (k, want, g)
        if got:
            return i, "reported without reason: %s" % got
    return None


def c29(ctx):
    ex = []
    th = threading.Thread(target=sched_build, args=("drv_life", ["drv_life.cc"], ["core", "server"], ex))
    th.start()
    cat = '''RandomElement({{T1, T2, T3, D1, D2}, {T1, T2, D1, D2, Other, Bad("q"), Bad("T:a"), Bad("D:")}, {Table(q, d) : q \\in {0, 1, 500, 70000}, d \\in {0, 1, 2, 90, 1000000}} \\cup {NoTable},
      {Measure}, {Measure, DelAll("g"), DelAll("A")}, {Adv(1000), Adv(29000), Adv(30000), Adv(31000), Adv(90000), Adv(400000)}, {Adv(30000)} \\cup {Adv(d) : d \\in Moments(st)}})'''
    fams = []
    for n, (ops, depth, mode, ttl, status) in enumerate([
            ('{T1, D1, Measure, Adv(30000), Adv(90000), Table(5, 7)}', ctx.scale(5, 6), "bfs", 900000, True),
            ('{Measure, Adv(30000), Table(5, 7), Table(9, 3), NoTable, DelAll("g")}', ctx.scale(5, 6), "bfs", 20000, True),
            ('{T1, Bad("q"), Measure, Adv(60000), Table(5, 7)}', 4, "bfs", 900000, False),
            (cat, 40, "sim", 900000, True), (cat, 40, "sim", 20000, True), (cat, 40, "sim", 70000, True), (cat, 20, "sim", 900000, False)]):
        fams.append(dict(n=n, ops=ops, depth=depth, mode=mode, ttl=ttl, status=status))
    jobs = [dict(module="Housekeeping", body=HOPS + "MCOps(st) == " + f["ops"], mode=f["mode"], depth=f["depth"] + 1, num=ctx.scale(400, 5000) if f["status"] else 50,
                 seed=ctx.seed * 100 + f["n"], timeout=800, cfg=HOUSE % dict(ttl=f["ttl"], status="TRUE" if f["status"] else "FALSE", depth=f["depth"], pick="One" if f["mode"] == "sim" else "All"))
            for f in fams]
    rs = T.run_many(jobs, 8)
    ctx.add_model(rs)
    cases, hs = [], []
    for f, r in zip(fams, rs):
        for i, h in enumerate(r.out):
            cases.append(house_case(dict(f, v4=i % 3 != 2), h))
            cases[-1]["v4"] = int(cases[-1]["v4"])
            hs.append(h)
    ctx.log("%d histories" % len(cases))
    th.join()
    if isinstance(ex[0], Exception):
        raise ex[0]
    order = list(range(len(cases)))
    random.Random(ctx.seed).shuffle(order)
    d = tempfile.mkdtemp(prefix="life_")
    try:
        got = drive(ex[0], [cases[i] for i in order], args=[d], timeout=600, chunk=max(1, min(200, len(cases) // 16)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    bad = None
    without = 0
    for i, r in zip(order, got):
        c, h = cases[i], hs[i]
        if r is None or r.get("skipped"):
            continue
        if r.get("without"):
            without += 1
            continue
        if "crash" in r:
            x = (len(h), r["crash"])
        else:
            x = (len(h), r["error"]) if r.get("error") else house_diff(h, r)
            ctx.traces += 1
        if x and (bad is None or x[0] < bad[0]):
            bad = (x[0], x[1], c, r, h)
    if without:
        ctx.notes["without_ipv6"] = without
    ctx.sample(cases[len(cases) // 2])
    if bad:
        raise Rejected("after %s: %s" % (json.dumps(bad[2]["ops"][:bad[0] + 1])[:900], bad[1]), dict(driver="drv_life", case=bad[2], specification=bad[4], observed=bad[3]))
