"""C31: batches sent side by side (Senders.tla)."""
import gzip, json, random, threading
from . import smile, tlc as T
from .core import Rejected, drive, num
from .props_conc import explain, sched_build

INV = "INVARIANT Once\nINVARIANT Bounded\nINVARIANT Complete\nINVARIANT Counting\nINVARIANT Quiet\nINVARIANT Prompt\n"
FREE = "SPECIFICATION Spec\nCONSTANTS\nFree = TRUE\nPrograms <- MCPrograms\n" + INV + "CONSTRAINT Short\nCHECK_DEADLOCK FALSE\n"
LIVE = FREE.replace("SPECIFICATION Spec", "SPECIFICATION Live").replace("CONSTRAINT Short\n", "") + "PROPERTY Stops\n"
JUDGE = "SPECIFICATION Spec\nCONSTANTS\nFree = FALSE\nPrograms <- MCPrograms\n" + INV + "CONSTRAINT Explained\nCHECK_DEADLOCK FALSE\n"
ADD = ("count", "totalAmount", "totalTime", "totalOfSquares", "percentile")
KINDS = {(1, 1): "sb", (1, 0): "se", (2, 1): "tb", (2, 0): "te", (5, 1): "gb", (5, 0): "ge", (4, 1): "m"}
KEYS = [("sent", None), ("dropped", "validation"), ("dropped", "http-error"), ("dropped", "other")]


class Lost(Exception):
    pass


def items_of(pub, common):
    """what each measurement of a publication is in a payload, by the common tags"""
    res = {}
    for g, tags in reversed(list(enumerate(common, 1))):
        for j, m in enumerate(pub["ms"], 1):
            t = [tuple(kv) for kv in m["t"]]
            op = 0 if dict(t).get("statistic") in ADD else 10
            res[tuple(sorted(t + [tuple(kv) for kv in tags] + [("name", m["n"])])), op, num(m["v"])] = (g, j)
    return res


def counts(pub):
    c = [0, 0, 0, 0]
    for m in pub["ms"]:
        if m["n"] == "spectator.measurements":
            t = dict(map(tuple, m["t"]))
            c[KEYS.index((t["id"], t.get("error")))] = int(num(m["v"]))
    return c


def history(c, h, decoded):
    """the history as the specification has it; Lost when a request carries what was not measured"""
    common = [dict(c["common"])]
    for op in c["ops"]:
        if op[0] == "tag":
            common.append(dict(common[-1], **{op[1]: op[2]}))
    common = [sorted(x.items()) for x in common]
    ids = [common.index(x) + 1 for x in common]
    pubs = [dict(ms=p["ms"][0]) for p in h["pubs"]]
    ev, g, n, table = [], 1, 0, {}
    for op, begin, t in h["ev"]:
        if op >= 16:
            body, x = divmod(op - 16, 8)
            got = [table.get(it) for it in decoded[body]]
            if not got or None in got:
                what = "nothing" if not got else next(it for it, q in zip(decoded[body], got) if q is None)
                raise Lost("at %d ms a request carries %r, which is not of the publication under way" % (t, what))
            if len({q[0] for q in got}) > 1 or len({q[1] for q in got}) != len(got):
                raise Lost("at %d ms a request carries a measurement twice or two sets of common tags" % t)
            ev.append(dict(k="pb" if begin else "pe", t=t, b=sorted(q[1] for q in got), g=got[0][0], x=x))
            continue
        k = KINDS[op, begin]
        e = dict(k=k, t=t)
        if k == "gb":
            g += 1
            e["g"] = ids[g - 1]
        if k == "m":
            p = pubs[n]
            n += 1
            e.update(n=len(p["ms"]), c=counts(p))
            if n == len(pubs):
                e["k"] = "c"
            else:
                table = items_of(p, common)
        ev.append(e)
    return dict(pool=c["pool"], batch=max(1, c["batch"]), freq=c["freq"], status=bool(c["status"]), ev=ev)


def c31(ctx):
    rnd = random.Random(ctx.seed + 31)
    ex, fr = [], []
    th = threading.Thread(target=sched_build, args=("drv_send", ["drv_send.cc"], ["core", "server"], ex))
    th.start()

    # the specification's own histories
    def program(pool, n, batch, freq, ops, took, answers, until, status=True):
        return dict(pool=pool, n=n, batch=batch, freq=freq, ops=[dict(k=k, t=t, g=g) for k, t, g in ops], took=set(took), answers=set(answers), until=until, status=status)
    progs = []
    for pool in (1, 2, 3):
        for n, batch in ((0, 1), (1, 1), (3, 1), (4, 3), (3, 2)) + (((4, 1), (5, 2)) if ctx.thorough else ()):
            for stop in (0, 100, 500):
                progs.append(program(pool, n, batch, 900, [("start", 0, 0), ("stop", stop, 0)], [100] if n > 3 else [0, 100], range(6) if n < 3 else (0, 1, 2), 2000))
            progs.append(program(pool, min(n, 3), batch, 300, [("start", 0, 0), ("tag", 300, 2), ("stop", 500, 0)], [100], (0, 1), 1400))

    def model():
        try:
            pr = "MCPrograms == " + T.tla(progs)
            fr.append(T.run(module="Senders", body=pr, cfg=FREE, files=[("hist.json", "[]")], timeout=800, workers=3))
            few = [program(2, 2, 1, 10000, [("start", 0, 0), ("stop", s, 0)], [100], (0, 1, 2), 0) for s in (0, 100, 250)]
            fr.append(T.run(module="Senders", body="MCPrograms == " + T.tla(few), cfg=LIVE, files=[("hist.json", "[]")], timeout=800))
        except Exception as e:
            fr.append(e)
    ft = threading.Thread(target=model)
    ft.start()

    cases = []
    OK, BUSY, GONE, SOME, MANY, WRONG = [200, 100], [503, 50], [-1, 50], [202, 70, '{"errorCount":1,"message":["x"]}'], [429, 30], [400, 20]

    def add(ops, **kw):
        c = dict(pool=2, freq=5000, batch=2, gauges=5, common=[["c", "d"], ["e", "f"]], posts=[OK], ops=ops, preempt=1, runs=0, random=ctx.scale(70, 1500),
                 seed=ctx.seed * 1000 + len(cases), status=0)
        c.update(kw)
        cases.append(c)
    # all of one publication's interleavings near the one without preemption
    for pool in (1, 2, 3):
        for posts in ([OK], [BUSY, OK], [[200, 0]], [GONE, BUSY, SOME]):
            add([["sleep", 3000]], pool=pool, gauges=3, batch=1, posts=posts, runs=ctx.scale(60, 20000), random=ctx.scale(60, 2000))
            add([["sleep", 3000]], pool=pool, gauges=4, batch=1, posts=posts, status=1, random=ctx.scale(40, 1000))
    # every answer, and the counts in the next publication
    for pool in (1, 2, 3):
        for batch in (1, 3, 4, 100):
            add([["sleep", 6000]], pool=pool, gauges=7, batch=batch, posts=[OK, BUSY, GONE, SOME, MANY, WRONG, BUSY, GONE, BUSY], status=1 if batch > 1 else 0)
            add([["sleep", 6000]], pool=pool, gauges=7, batch=batch, posts=[BUSY, BUSY, BUSY, [503, 50], OK], status=1 if batch > 1 else 0)
    # a common tag that changes before, while and after
    for d in (0, 10, 100, 250, 700, 1000, 4999, 5000, 5050):
        add([["sleep", d], ["tag", "c", "x"], ["sleep", 5500]], posts=[BUSY, OK, GONE], pool=1 + d % 3, freq=rnd.choice([1000, 5000]), random=ctx.scale(60, 2000))
        add([["sleep", d], ["tag", "new", "y"], ["tag", "c", "z"], ["sleep", 100]], posts=[OK], pool=1 + (d + 1) % 3, freq=1000, random=ctx.scale(60, 2000))
    # a stop at each stage
    for d in (0, 50, 100, 150, 200, 300, 500, 650, 700, 900, 1100):
        for posts in ([OK], [BUSY, OK, GONE], [BUSY]):
            add([["sleep", d]], posts=posts, pool=1 + len(cases) % 3, freq=500, status=int(d == 100), batch=2 if d != 100 else 6)
    # publications that take longer than their turn
    add([["sleep", 3000]], freq=100, posts=[OK, BUSY], pool=1)
    add([["sleep", 3000]], freq=250, posts=[OK, BUSY], pool=2)
    for _ in range(ctx.scale(16, 400)):
        ops = []
        for _ in range(rnd.randrange(1, 5)):
            ops.append(rnd.choice([["sleep", rnd.choice([1, 99, 100, 500, 1000])], ["sleep", 700], ["tag", rnd.choice("cnm"), rnd.choice("xyz")]]))
        st = rnd.random() < .4
        add(ops, pool=rnd.randrange(1, 4), freq=rnd.choice([100, 700, 1000]), gauges=rnd.randrange(0, 8), batch=rnd.choice([0, 1, 2, 3, 5]) if not st else rnd.choice([4, 10]), status=int(st),
            posts=[rnd.choice([OK, OK, BUSY, GONE, SOME, MANY, WRONG, [200, 0], [500, 0], [-1, 0]]) for _ in range(rnd.randrange(1, 7))])

    th.join()
    if isinstance(ex[0], Exception):
        raise ex[0]
    order = list(range(len(cases)))
    rnd.shuffle(order)
    got = drive(ex[0], [cases[i] for i in order], timeout=800, chunk=1)
    hists, own = [], []
    runs = whole = 0
    nbodies = 0
    for i, r in zip(order, got):
        c = cases[i]
        if r is None or r.get("skipped"):
            continue
        if "crash" in r:
            raise Rejected("%s: %s" % (json.dumps(c)[:700], r["crash"]), dict(driver="drv_send", case=c, error=r))
        runs += r["runs"]
        whole += bool(r["exhausted"])
        decoded = []
        for x in r["bodies"]:
            try:
                decoded.append([(tuple(sorted(p)), op, v) for p, op, v in smile.payload(gzip.decompress(bytes.fromhex(x)))])
            except Exception as e:
                raise Rejected("a request does not decode: %r (%s)" % (e, x[:400]), dict(driver="drv_send", case=c))
        nbodies += len(decoded)
        for h in r["hist"]:
            try:
                hists.append(history(c, h["h"], decoded))
            except Lost as e:
                raise Rejected(str(e), dict(driver="drv_send", case=c, schedule=h["schedule"]))
            own.append(dict(case=c, schedule=h["schedule"]))
    ctx.notes.update(executions=runs, exhausted_programs=whole, programs=len(cases), histories=len(hists), payloads=nbodies)
    ctx.log("%d executions, %d distinct histories, %d payloads" % (runs, len(hists), nbodies))
    bad = explain(ctx, "Senders", JUDGE, hists, extra="MCPrograms == << >>")
    ctx.traces += len(hists)
    if bad:
        k = min(bad, key=lambda j: len(hists[j]["ev"]))
        raise Rejected("Senders does not allow %s" % json.dumps(hists[k])[:2500], dict(driver="drv_send", **own[k]))
    ft.join()
    for r in fr:
        if isinstance(r, Exception):
            raise r
    ctx.add_model(fr)
