"""C15, C16: publishing (spec/Publisher.tla, which extends the registry)."""
import threading
from fractions import Fraction
from . import build as B, tlc as T, reg, smile
from .core import Rejected, drive, close

SEC = reg.SEC

DEFS = '''
S(st) == [st |-> st, fail |-> "", body |-> [k |-> "text", s |-> "", ec |-> <<>>, msg |-> ""]]
F(fail) == [st |-> -1, fail |-> fail, body |-> [k |-> "text", s |-> "", ec |-> <<>>, msg |-> ""]]
R(st, b) == [st |-> st, fail |-> "", body |-> b]
Text(s) == [k |-> "text", s |-> s, ec |-> <<>>, msg |-> ""]
Obj(ec, msg) == [k |-> "obj", s |-> "", ec |-> ec, msg |-> msg]
IntE(i) == <<[t |-> "int", n |-> i, s |-> ""]>>
RawE(s) == <<[t |-> "raw", n |-> 0, s |-> s]>>
Publish(full, last) == [op |-> "publish", full |-> full, last |-> last]
AllWell == Publish(<<<<S(200)>>>>, <<S(200)>>)
Tag(k, v) == [op |-> "tag", k |-> k, val |-> v]
Untag(k) == [op |-> "untag", k |-> k]
Enable(b) == [op |-> "enable", on |-> b]
Bulk(t, m, v) == [op |-> "bulk", ty |-> t, n |-> m, v |-> v]
'''


def job(f, seed, num_=None):
    g = dict(f)
    g["defs"] = DEFS + f.get("defs", "")
    j = reg.job(g, seed, num_)
    j["module"] = "Publisher"
    j["body"] = j["body"].replace("MCOps(st) ==", "MCPubOps(st) ==") + "\nMCOps(st) == {}\nMCBatch == %s\nMCCommon == %s\n" % (
        T.tla(f.get("batch", 100)), "{%s}" % ", ".join(T.tla(list(p)) for p in f.get("common", [])))
    j["cfg"] = j["cfg"].replace("SPECIFICATION Spec", "SPECIFICATION PSpec").replace(
        "CONSTANTS\n", "CONSTANTS\nBatch <- MCBatch\nCommon <- MCCommon\nPubOps <- MCPubOps\n").replace(
        "INVARIANT GoodState", "INVARIANT CommonOK GoodState")
    return j


def json_of(b):
    if b["k"] == "text":
        if b["s"].startswith("deep"):
            n, c = b["s"][4:].split("/")
            return dict(deep=int(n), closed=int(c))
        return dict(body=b["s"])
    parts = []
    for e in b["ec"]:
        parts.append('"errorCount":%s' % (e["n"] if e["t"] == "int" else e["s"]))
    if b["msg"]:
        parts.append('"message":%s' % b["msg"])
    return dict(body="{%s}" % ",".join(parts))


def attempt(a):
    if a["fail"]:
        return dict(fail=a["fail"])
    return dict(status=a["st"], **json_of(a["body"]))


def case_of(f, h):
    n = 0
    c = reg.case_of(f, h)
    unit = Fraction(f.get("unit", Fraction(1, 8)))
    ops = []
    for e, op in zip(h, c["ops"]):
        o = e["o"]
        if o["op"] == "publish":
            op = dict(op="publish", scripts=[[attempt(a) for a in sc] for sc in o["full"]],
                      lastscript=[attempt(a) for a in o["last"]], last=e["r"]["last"] or -1)
        elif o["op"] == "tag":
            op = dict(op="tag", k=o["k"], v=o["val"])
        elif o["op"] == "bulk":
            op = dict(op="bulk", ty=o["ty"], n=o["n"], v=float(Fraction(o["v"]) * unit))
        ops.append(op)
    c.update(ops=ops, batch=f.get("batch", 100), common=f.get("common", []))
    return c


def diff(f, h, res):
    unit = Fraction(f.get("unit", Fraction(1, 8)))
    d = reg.diff(f, h, res)
    best = d
    batch = max(1, f.get("batch", 100))
    for i, e in enumerate(h):
        if e["o"]["op"] != "publish":
            continue
        w = publish_diff(e, res[i], unit, batch)
        if w and (best is None or i < best[0]):
            return i, w
    return best


def publish_diff(e, got, unit, batch):
    exp = e["r"]
    if got["calls"] != 1:
        return "the measurement callback was called %s times" % got["calls"]
    d = reg.same([(reg.key(p["n"], p["t"]), reg.value(p["v"], unit)) for p in exp["pub"]],
                 [(reg.key(p["n"], p["t"]), float(p["v"])) for p in got["seen"]])
    if d:
        return "the measurement callback saw " + d
    if not exp["goes"]:
        return "%d requests were sent, none expected" % len(got["requests"]) if got["requests"] else None
    by = {}
    for r in got["requests"]:
        if r["method"] != "POST" or r["target"] != "/publish" or r["encoding"] != "gzip" or r["type"] != "application/x-jackson-smile":
            return "unexpected request %s %s (%s, %s)" % (r["method"], r["target"], r["type"], r["encoding"])
        if not r["gzip"]:
            return "a payload is not one gzip stream"
        by.setdefault(r["body"], []).append(r["outcome"])
    sent = []
    sizes = []
    for body in by:
        try:
            items = smile.payload(bytes.fromhex(body))
        except (smile.Bad, IndexError, ValueError) as x:
            return "a payload does not decode: %r (%s)" % (x, body[:400])
        if len(items) > batch:
            return "a payload holds %d measurements, the batch size is %d" % (len(items), batch)
        if not items:
            return "an empty payload"
        sizes.append(len(items))
        for pairs, op, x in items:
            sent.append(((tuple(sorted(pairs)), op), x))
    d = reg.same([((tuple(sorted(map(tuple, p["t"]))), p["op"]), reg.value(p["v"], unit)) for p in exp["sent"]], sent)
    if d:
        return "sent " + d
    want = sorted(exp["attempts"])
    have = sorted(len(v) for v in by.values())
    if len(want) == len(have) and want != have:
        return "attempts per payload: specification %s, implementation %s" % (want, have)
    return None


def check(ctx, families):
    jobs, owner = [], []
    for fi, f in enumerate(families):
        if f.get("mode", "bfs") == "sim":
            n = f.get("num", 100) * ctx.scale(1, f.get("thorough", 8))
            parts = max(1, min(8, n // 100))
            for p in range(parts):
                jobs.append(job(f, ctx.seed * 1000 + fi * 50 + p, n // parts))
                owner.append(f)
        else:
            g = dict(f)
            if ctx.thorough and "tdepth" in f:
                g["depth"] = f["tdepth"]
            jobs.append(job(g, ctx.seed))
            owner.append(f)
    ex = []

    def bld():
        try:
            ex.append(B.build("drv_publish", ["drv_publish.cc", "vclock.cc"], ["core", "server"]))
        except Exception as e:
            ex.append(e)
    t = threading.Thread(target=bld)
    t.start()
    rs = T.run_many(jobs, 8)
    t.join()
    if isinstance(ex[0], Exception):
        raise ex[0]
    ctx.add_model(rs)
    cases, who = [], []
    for f, r in zip(owner, rs):
        if not r.out:
            raise T.ModelError("no behaviours")
        for h in r.out:
            cases.append(case_of(f, h))
            who.append((f, h))
    ctx.log("%d behaviours" % len(cases))
    res = drive(ex[0], cases, timeout=800, par=12)
    bad = None
    pubs = reqs = 0
    for (f, h), c, r in zip(who, cases, res):
        if isinstance(r, dict) and r.get("skipped"):
            continue
        if isinstance(r, dict):
            d = (len(h), r["crash"])
        else:
            d = diff(f, h, r)
            ctx.traces += 1
            for x in r:
                if "requests" in x:
                    pubs += 1
                    reqs += len(x["requests"])
        if d and (bad is None or d[0] < bad[0]):
            bad = (d[0], d[1], c, h, r)
    ctx.notes.update(publish_intervals=pubs, requests_received=reqs)
    ctx.sample(dict(case=cases[len(cases) // 2]))
    if bad:
        i, what, c, h, r = bad
        raise Rejected("step %d: %s" % (i, what), dict(driver="drv_publish", case=dict(c, ops=c["ops"][:i + 1]),
                       specification=h[i] if i < len(h) else None, implementation=r[i] if isinstance(r, list) else r))


# names and tags whose lengths are those where the encodings of strings change
def L(n, c="n"):
    return (c * n)[:n]


RAW = [["a", []], ["b", [["k", "v"]]], [L(32), [[L(33, "k"), L(31, "v")]]], [L(64), [[L(65, "k"), L(63, "v")]]], [L(65), [[L(64, "k"), L(66, "v")]]],
       [L(200), [["x", L(100, "y")], ["y", "x"], ["z", "z"]]], ["s", [["statistic", "percentile"]]], ["g", [["statistic", "gauge"], ["nf.app", "q"]]],
       ["a b", [["c d", "e f"]]], ["count", [["name2", "count"], ["gauge", "statistic"]]], ["m", [[c, c + c] for c in "qrstuvwxyzabcdef"]], [L(256), []]]

OK = "AllWell"
FLAKY = "Publish(<<<<S(503), S(200)>>, <<S(200)>>, <<S(429), S(500), S(200)>>, <<F(\"reset\"), S(200)>>>>, <<S(599), S(200)>>)"


def c15(ctx):
    # (types that publish the same statistic use different ids, so that no two payloads are equal)
    cat = '''RandomElement({{U(t, i, v) : t \\in {"c", "g", "m"}, i \\in 1..3, v \\in {0, 3, 8, 1001, 5001}} \\cup {U("g", i, -5) : i \\in 1..3} \\cup {U("C", 4, v) : v \\in {8, 16, 4096}},
      {U(t, i, v) : t \\in {"d", "g", "D"}, i \\in 5..8, v \\in {0, 8, 800, 5600}},
      {U(t, i, v) : t \\in {"t", "A", "T"}, i \\in 9..12, v \\in {0, 8, 800, 5600}},
      {AllWell, %s}, {Tag(k, v) : k \\in {"nf.node", "nf.app2", "zz", "%s"}, v \\in {"i-1", "v", "%s", "a b"}} \\cup {Untag("nf.node"), Untag("zz"), Untag("c0"), Untag("%s")},
      Advs({1, 5001, 900001}) \\cup {Measure, Expire, Enable(FALSE), Enable(TRUE), Enable(TRUE), AllWell}})''' % (FLAKY, L(64, "K"), L(65, "V"), L(64, "K"))
    fams = []
    common = [["nf.app0", "x"], ["c0", L(33, "c")]]
    for k, batch in enumerate((100, 1, 2, 3, 5, -1)):
        fams.append(dict(ops=cat, depth=40, mode="sim", num=ctx.scale(100, 100), raw=RAW, batch=batch, status=False, common=common if k != 1 else []))
    big = '''IF Len(st.h) = 0 THEN {Bulk("%s", %d, 8)}
      ELSE IF Len(st.h) = 1 THEN {U("g", i, i) : i \\in 1..1} ELSE {%s}'''
    for ty, m, batch in (("c", 1000, 100), ("c", 1000, 7), ("c", 300, 1), ("t", 400, 10000), ("g", 1000, 999), ("c", ctx.scale(4000, 20000), 1000), ("m", 64, 8), ("d", 33, 16)):
        fams.append(dict(ops=big % (ty, m, OK if m > 500 else FLAKY), depth=4 if m < 2000 else 3, raw=[["a", []]], batch=batch, status=False, common=common))
    check(ctx, fams)


BODIES = ['Obj(<<>>, "")', 'Obj(IntE(0), "")', 'Obj(IntE(1), "[\\"bad tag\\"]")', 'Obj(IntE(2), "[\\"a\\", 1, null, {}]")', 'Obj(IntE(1), "\\"text\\"")',
          'Obj(IntE(1), "7")', 'Obj(IntE(1), "{}")', 'Obj(IntE(1), "null")', 'Obj(IntE(3), "[]")', 'Obj(IntE(1000000), "[]")', 'Obj(RawE("4294967295"), "")',
          'Obj(RawE("4294967296"), "")', 'Obj(RawE("18446744073709551616"), "")', 'Obj(RawE("-1"), "[\\"x\\"]")', 'Obj(RawE("0.5"), "")', 'Obj(RawE("\\"1\\""), "")',
          'Obj(RawE("true"), "")', 'Obj(RawE("null"), "")', 'Obj(RawE("[1]"), "")', 'Obj(RawE("{\\"a\\":1}"), "[[[]]]")', 'Text("")', 'Text("nope")', 'Text("{")', 'Text("[]")', 'Text("[1,2]")',
          'Text("5")', 'Text("null")', 'Text("true")', 'Text("\\"errorCount\\"")', 'Text("{}x")', 'Text("{\\"errorCount\\":0")', 'Text("{\\"errorcount\\":0}")', 'Text("deep300000/0")', 'Text("deep300000/1")',
          'Text("<html>502</html>")', 'Text("{\\"a\\":{\\"errorCount\\":0}}")']


def c16(ctx):
    raw = [["a", []], ["b", []]]
    few = '{S(200), R(202, Obj(IntE(1), "[]")), R(400, Obj(IntE(2), "[]")), S(404), S(304), S(413), S(500), F("reset"), S(204)}'
    all_ = "{R(cc, b) : cc \\in {201, 202, 206, 299, 400, 429}, b \\in {%s}} \\cup {R(cc, b) : cc \\in {200, 300, 304, 401, 404, 418, 422, 451, 499, 500, 502, 503, 599}, " \
           "b \\in {Obj(IntE(0), \"\"), Obj(IntE(1), \"\"), Text(\"x\")}} \\cup {F(\"reset\"), F(\"partial\"), F(\"garbage\")}" % ", ".join(BODIES)
    fams = []
    one = '''IF Len(st.h) = 0 THEN {Bulk("c", %s, 8)} ELSE IF Len(st.h) = 1 THEN %s ELSE {Measure}'''
    # one batch of one or two measurements, every answer
    for m in ctx.scale((2,), (1, 2, 3)):
        fams.append(dict(ops=one % (m, "{Publish(<<<<a>>>>, <<a>>) : a \\in %s}" % all_), depth=3, raw=raw, batch=100))
    # two batches of different size, two answers each (429 and 5xx are attempted again)
    fams.append(dict(ops=one % (5, "{Publish(<<<<a, b>>>>, <<c>>) : a \\in {S(429), S(503), F(\"reset\"), S(200)}, b \\in %s, c \\in %s}" % (few, few)), depth=3, raw=raw, batch=3))
    fams.append(dict(ops=one % (4, "{Publish(<<<<a, b, c>>>>, <<S(200)>>) : a \\in {S(500), S(429), F(\"partial\")}, b \\in %s, c \\in %s}" % (few, few)), depth=3, raw=raw, batch=4))
    fams.append(dict(ops=one % (2, "{Publish(<<<<a>>>>, <<a>>) : a \\in {S(200), S(500), F(\"reset\"), S(404), R(202, Obj(IntE(1), \"\"))}}"), depth=3, raw=raw, batch=100, status=False))
    cat = '''RandomElement({{U("c", i, v) : i \\in 1..2, v \\in {0, 3}} \\cup {U("t", 1, 8), U("g", 2, 5), Bulk("c", 7, 1)},
      {Publish(<<<<RandomElement(%s), RandomElement(%s)>>, <<RandomElement(%s)>>>>, <<RandomElement(%s), RandomElement(%s)>>)},
      {Publish(<<<<RandomElement(%s)>>, <<RandomElement(%s)>>>>, <<RandomElement(%s)>>)},
      Advs({1, 30000}) \\cup {Measure, Measure, Expire, Enable(FALSE), Enable(TRUE)}})''' % ((few, few, few, few, few, all_, all_, all_))
    for batch in (2, 3, 100):
        fams.append(dict(ops=cat, depth=20, mode="sim", num=300, raw=raw, batch=batch, common=[["nf.app", "x"]]))
    check(ctx, fams)


HTTP_CFG = """SPECIFICATION Spec
CONSTANTS
Outcomes <- MCOutcomes
Max = 3
Requests = %d
INVARIANT Good
CONSTRAINT Emitting
CHECK_DEADLOCK FALSE
"""
PATHS = [("/api/v1/publish", "_api_v1_publish"), ("/a/b?x=1&y=/z", "_a_b"), ("", "_"), ("/", "_"), ("/q?", "_q"), ("?only=query", "_")]


def http_op(i, s, seed):
    n = (seed * 7919 + i * 31) % 1009
    path, end = PATHS[n % 5]
    m = ("GET", "POST", "PUT", "GETH", "POST")[n // 5 % 5]
    compress = m == "POST" and n % 2 == 0
    payload = "" if m != "POST" else (["{}", "x" * 5000, "", "\x00\x01\xff" * 50, "payload " * 3000][n % 5])
    body = n % 7 != 3
    headers = n % 11 != 5
    script = []
    for k, o in enumerate(s["script"]):
        if o["st"] == 0:
            script.append(dict(fail=o["fail"], body="part"))
        else:
            script.append(dict(status=o["st"], body="body-%d-%d\r\n\x80" % (i, k), big=[0, 0, 70000][(n + k) % 3],
                               headers=["X-Attempt: %d" % k, "X-Tight:t%d" % k, "X-Empty:", "X-Pad:  a: b \t"]))
    return dict(op="http", method=m.replace("H", ""), compress=int(compress), path=path, payload=payload, body=int(body), headers=int(headers),
                script=script, **{"with": int(m == "GETH")}), end


def http_diff(op, end, s, r):
    sc = op["script"]
    if r["used"] != len(sc):
        return "attempts: specification %d, implementation %d (status %s)" % (len(sc), r["used"], r["status"])
    if len(r["requests"]) != s["seen"]:
        return "requests seen by the server: %d, expected %d" % (len(r["requests"]), s["seen"])
    if r["status"] != s["status"]:
        return "status of the response: specification %s, implementation %s" % (s["status"], r["status"])
    for q in r["requests"]:
        path = op["path"] if op["path"].startswith("/") else "/" + op["path"]
        if q["method"] != op["method"] or q["target"] != path:
            return "request %s %s" % (q["method"], q["target"])
        if op["method"] == "POST":
            if q["body"] != op["payload"] or not q["gzip"] or ("content-encoding" in q["hdrs"]) != bool(op["compress"]) or \
                    q["hdrs"].get("content-type") != "application/json":
                return "posted %r" % (q["hdrs"],)
        elif op["method"] == "PUT" or op["with"]:
            if q["hdrs"].get("x-one") != "1" or q["hdrs"].get("x-two") != "two words":
                return "headers of the request: %s" % q["hdrs"]
    last = sc[-1]
    if s["status"] > 0:
        want = "" if not op["body"] or last["status"] in (204, 304) else last["body"] + "x" * last["big"]
        if r["body"] != want:
            return "body of the response: %r, expected %r" % (r["body"][:60], want[:60])
        h = {k.lower(): v for k, v in r["headers"].items()}
        if op["headers"]:
            k = len(sc) - 1
            if (h.get("x-attempt"), h.get("x-tight"), h.get("x-pad")) != (str(k), "t%d" % k, "a: b"):
                return "headers of the response: %r" % (h,)
        elif h:
            return "headers although not asked for: %r" % (h,)
    return None


def c17(ctx):
    def outs(xs):
        return "{%s}" % ", ".join("[st |-> %d, fail |-> \"\"]" % x if isinstance(x, int) else '[st |-> 0, fail |-> "%s"]' % x for x in xs)
    full = [200, 204, 201, 299, 304, 301, 400, 404, 428, 429, 430, 499, 500, 503, 599, 600, "refused", "hang", "reset", "partial", "garbage"]
    jobs = []

    def add(xs, requests, sim=0):
        jobs.append(dict(module="Http", body="MCOutcomes == %s" % outs(xs), cfg=HTTP_CFG % requests, mode="sim" if sim else "bfs", num=sim, depth=5 * requests,
                         seed=ctx.seed * 10 + len(jobs), timeout=800))
    add(full, 1)
    add([200, 404, 429, 503, "slow", "refused", "reset", "hang"] if not ctx.thorough else full + ["slow"], 1)
    add(full, 4, ctx.scale(60, 600))
    ex = []

    def bld():
        try:
            ex.append(B.build("drv_publish", ["drv_publish.cc", "vclock.cc"], ["core", "server"]))
        except Exception as e:
            ex.append(e)
    t = threading.Thread(target=bld)
    t.start()
    rs = T.run_many(jobs, 4)
    t.join()
    if isinstance(ex[0], Exception):
        raise ex[0]
    ctx.add_model(rs)
    seen, hist = set(), []
    for r in rs:
        for h in r.out:
            k = str([s["script"] for s in h])
            if k not in seen:
                seen.add(k)
                hist.append(h)
    cases, who = [], []
    for i, h in enumerate(hist):
        ops = []
        ends = []
        for j, s in enumerate(h):
            op, end = http_op(i + 1000 * j, s, ctx.seed)
            ops.append(op)
            ends.append(end)
        status = i % 13 != 12
        cases.append(dict(start=0, virtual=0, connect_ms=60, read_ms=1500, ttl=0, status=int(status), ops=ops + [dict(op="measure")]))
        who.append((h, ends, status))
    ctx.log("%d histories" % len(cases))
    res = drive(ex[0], cases, timeout=800, par=32, chunk=max(1, len(cases) // 64))
    attempts = 0
    for c, (h, ends, status), r in zip(cases, who, res):
        d = None
        if isinstance(r, dict):
            if r.get("skipped"):
                continue
            d = r["crash"]
        else:
            ctx.traces += 1
            want, perc = {}, {}
            for j, s in enumerate(h):
                d = d or http_diff(c["ops"][j], ends[j], s, r[j])
                attempts += len(s["script"])
                for x in s["records"]:
                    k = (ends[j], c["ops"][j]["method"], x["status"], x["result"], x["why"], x["attempt"], "true" if x["final"] else "false")
                    want[k] = want.get(k, 0) + 1
            if not status:
                want = {}
            got, perc = {}, {}
            for p in r[-1]["pub"]:
                if p["n"] != "ipc.client.call":
                    continue
                t = dict(map(tuple, p["t"]))
                k = tuple(t.get(x) for x in ("ipc.endpoint", "http.method", "http.status", "ipc.result", "ipc.status", "ipc.attempt", "ipc.attempt.final"))
                if t.get("owner") != "spectatord":
                    d = d or "ipc.client.call with tags %s" % t
                if t["statistic"] == "count":
                    got[k] = float(p["v"])
                elif t["statistic"] == "percentile":
                    perc[k] = perc.get(k, 0) + float(p["v"])
            if d is None and (got != want or perc != want):
                d = "attempts recorded: specification %s, implementation %s, in percentile buckets %s" % (want, got, perc)
        if d:
            raise Rejected(d, dict(driver="drv_publish", case=c, specification=h, implementation=r))
    ctx.notes.update(histories=len(cases), attempts=attempts)
    ctx.sample(dict(script=who[len(who) // 2][0]))
