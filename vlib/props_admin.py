"""C14: the admin server (spec/Admin.tla, which extends the publisher and the registry)."""
import json, threading
from . import build as B, tlc as T, reg, props_publish as P
from .core import Rejected, drive

SEC = reg.SEC
DEFS = '''
Local0 == <<"localhost", ":1234">>
Adm(e, m, u, host) == [op |-> "admin", m |-> m, e |-> e, u |-> u, host |-> host]
Metrics == Adm("metrics", "GET", "/metrics", Local0)
Config == Adm("config", "GET", "/config", Local0)
Post(b, host) == [op |-> "admin", m |-> "POST", e |-> "tags", u |-> "/config/common_tags", host |-> host, body |-> b]
ObjB(ms) == [k |-> "obj", ms |-> ms]
TextB(s) == [k |-> "text", s |-> s]
Str(k, v) == [k |-> k, t |-> "str", s |-> v]
Raw1(k, j) == [k |-> k, t |-> "raw", s |-> j]
DelOne(t, i, host) == [op |-> "admin", m |-> "DELETE", e |-> t, u |-> "/metrics/" \\o t, host |-> host, all |-> FALSE, id |-> i]
DelEvery(t, host) == [op |-> "admin", m |-> "DELETE", e |-> t, u |-> "/metrics/" \\o t, host |-> host, all |-> TRUE]
'''


def job(f, seed, num_=None):
    g = dict(f)
    g["defs"] = DEFS + f.get("defs", "")
    j = P.job(g, seed, num_)
    j["module"] = "Admin"
    j["body"] = j["body"].replace("MCPubOps(st) ==", "MCAdminOps(st) ==") + "\nMCPubOps(st) == {}\n"
    j["cfg"] = j["cfg"].replace("SPECIFICATION PSpec", "SPECIFICATION ASpec").replace(
        "CONSTANTS\n", "CONSTANTS\nAdminOps <- MCAdminOps\n") + "PROPERTY OnlyAsked\n"
    return j


def body_of(b):
    if b["k"] == "text":
        if b["s"].startswith("deep"):
            return "[" * 300
        return b["s"]
    return "{%s}" % ", ".join("%s:%s" % (json.dumps(m["k"]), json.dumps(m["s"]) if m["t"] == "str" else m["s"]) for m in b["ms"])


def text_of(o, raw, salt):
    u = o["u"]
    if o["e"] in ("A", "g") and not o["all"]:
        n, t = raw[o["id"] - 1]
        u += "/" + n + "".join(",%s=%s" % tuple(kv) for kv in t)
    head = "%s %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n" % (o["m"], u, "".join(o["host"]))
    if "body" in o:
        b = body_of(o["body"])
        if salt % 5 == 2 and b:    # in chunks
            k = max(1, len(b) // 2)
            return head + "Transfer-Encoding: chunked\r\n\r\n" + "".join("%x\r\n%s\r\n" % (len(c), c) for c in (b[:k], b[k:]) if c) + "0\r\n\r\n"
        return head + "Content-Length: %d\r\n\r\n%s" % (len(b), b)
    return head + "\r\n"


def case_of(f, h, salt):
    c = P.case_of(f, h)
    c["ops"] = [dict(op="admin", text=text_of(e["o"], f["raw"], salt + i)) if e["o"]["op"] == "admin" else op
                for i, (e, op) in enumerate(zip(h, c["ops"]))]
    return c


SECTIONS = dict(age_gauges="A", counters="c", dist_summaries="d", gauges="g", max_gauges="m", mono_counters="C", mono_counters_uint="U", timers="t")


def parse(reply):
    head, _, body = reply.partition("\r\n\r\n")
    lines = head.split("\r\n")
    try:
        st = int(lines[0].split(" ")[1])
    except (IndexError, ValueError):
        return 0, {}, ""
    return st, {l.split(":", 1)[0].lower(): l.split(":", 1)[1].strip() for l in lines[1:] if ":" in l}, body


def admin_diff(f, c, e, got, unit):
    o, exp = e["o"], e["r"]
    if got["bound"] not in ("127.0.0.1", "::1"):
        return "the admin server listens on %r" % got["bound"]
    st, hd, body = parse(got["reply"])
    if st != exp["st"]:
        return "%s %s from %s: specification %d, implementation %d" % (o["m"], o["u"], "".join(o["host"]), exp["st"], st)
    if exp["ct"]:
        if hd.get("content-type") != exp["ct"]:
            return "content type %r" % hd.get("content-type")
        try:
            js = json.loads(body)
        except ValueError:
            return "the reply to %s %s is not JSON: %r" % (o["m"], o["u"], body[:200])
        if not isinstance(js, dict):
            return "the reply is not an object"
    if o["e"] == "config":
        want = dict(map(tuple, exp["cfg"]))
        if js.get("common_tags") != want:
            return "common tags: specification %s, configuration shows %s" % (want, js.get("common_tags"))
        for k, v in (("age_gauge_limit", c["limit"]), ("batch_size", c["batch"]), ("meter_ttl", c["ttl"] / 1e6),
                     ("status_metrics_enabled", bool(c["status"])), ("connect_timeout", 2000), ("read_timeout", 20000)):
            if js.get(k) != v:
                return "configuration shows %s=%r, it is %r" % (k, js.get(k), v)
    if o["e"] == "usage" and not all(k in js.get("usage", "") for k in ("mantisJobId", "mantisJobName", "mantisUser",
                                     "mantisWorkerIndex", "mantisWorkerNumber", "mantisWorkerStageNumber")):
        return "the usage does not name the settable tags"
    if o["e"] == "metrics":
        have, total = [], 0
        for s, ty in SECTIONS.items():
            if not isinstance(js.get(s), list) or js["stats"].get(s + ".size") != len(js[s]):
                return "listing: section %s has %s, its size is given as %s" % (s, len(js.get(s) or []), js["stats"].get(s + ".size"))
            total += len(js[s])
            for m in js[s]:
                if not m["name"].startswith("spectator"):
                    have.append(((ty,) + reg.key(m["name"], m["tags"].items()), float(m["value"])))
        if js["stats"].get("total.size") != total:
            return "listing: total.size"
        d = reg.same([((p["ty"],) + reg.key(p["id"]["n"], p["id"]["t"]), reg.value(p["v"], unit)) for p in exp["list"]], have)
        if d:
            return "listing: " + d
    return None


def check(ctx, fams):
    jobs, owner = [], []
    for fi, f in enumerate(fams):
        if f.get("mode", "bfs") == "sim":
            n = f.get("num", 100) * ctx.scale(1, f.get("thorough", 8))
            parts = max(1, min(8, n // 100))
            for p in range(parts):
                jobs.append(job(f, ctx.seed * 1000 + fi * 50 + p, n // parts))
                owner.append(f)
        else:
            g = dict(f)
            if ctx.thorough and "tdepth" in f:
                g["depth"] = f["tdepth"]
            jobs.append(job(g, ctx.seed))
            owner.append(f)
    ex = []

    def bld():
        try:
            ex.append(B.build("drv_admin", ["drv_admin.cc", "vclock.cc"], ["core", "server", "admin"], poco=True))
        except Exception as e:
            ex.append(e)
    t = threading.Thread(target=bld)
    t.start()
    rs = T.run_many(jobs, 8)
    t.join()
    if isinstance(ex[0], Exception):
        raise ex[0]
    ctx.add_model(rs)
    cases, who = [], []
    for f, r in zip(owner, rs):
        if not r.out:
            raise T.ModelError("no behaviours")
        for i, h in enumerate(r.out):
            cases.append(case_of(f, h, i))
            who.append((f, h))
    ctx.log("%d behaviours" % len(cases))
    res = drive(ex[0], cases, timeout=800, par=12)
    bad = None
    kinds = {}
    for (f, h), c, r in zip(who, cases, res):
        if isinstance(r, dict) and r.get("skipped"):
            continue
        if isinstance(r, dict):
            d = (len(h), r["crash"])
        else:
            d = P.diff(f, h, r)
            for i, e in enumerate(h):
                if e["o"]["op"] == "admin":
                    kk = "%s %s %d" % (e["o"]["m"], e["o"]["e"], e["r"]["st"])
                    kinds[kk] = kinds.get(kk, 0) + 1
                    if d is None or i < d[0]:
                        w = admin_diff(f, c, e, r[i], reg.Fraction(f.get("unit", reg.Fraction(1, 8))))
                        if w:
                            d = (i, w)
            ctx.traces += 1
        if d and (bad is None or d[0] < bad[0]):
            bad = (d[0], d[1], c, h, r)
    ctx.notes["requests"] = kinds
    ctx.sample(dict(case=cases[len(cases) // 2]))
    if bad:
        i, what, c, h, r = bad
        raise Rejected("step %d: %s" % (i, what), dict(driver="drv_admin", case=dict(c, ops=c["ops"][:i + 1]),
                       specification=h[i] if i < len(h) else None, implementation=r[i] if isinstance(r, list) else r))


RAW = [["g1", []], ["g1", [["k", "v"]]], ["g2", [["k", "v"], ["a", "b"]]], ["g", []], ["1", []], ["gauge.x-y", [["k", "w"], ["z", "v"]]], ["A", [["statistic", "x"]]],
       ["u=r/l", [["q", "a=b"], ["p%", "=c?d=e&f"]]], ["n_", [["k!", "="], ["k1", "1"], ["k2", "2"], ["k3", "3"], ["k4", "4"], ["k5", "5"], ["k6", "6"], ["k7", "7"], ["k8", "8"]]], ["dup", [["k", "1"], ["l", "2"], ["k", "3"]]]]
# every type under every id
FILL = "{%s}"
HOSTS = ['<<"localhost", "">>', '<<"localhost", ":1234">>', '<<"127.0.0.1", "">>', '<<"127.0.0.1", ":80">>', '<<"[::1]", "">>', '<<"[::1]", ":1234">>',
         '<<"example.com", "">>', '<<"localhost.example.com", "">>', '<<"notlocalhost", ":1234">>', '<<"127.0.0.1.example.com", ":80">>', '<<"10.127.0.0.1", "">>',
         '<<"10.0.0.1", ":1234">>', '<<"[::2]", "">>', '<<"[::1].example.com", "">>', '<<"::1", "">>', '<<"example.com", ":127.0.0.1">>', '<<"0.0.0.0", "">>', '<<"x[::1]", ":1">>', '<<"local", "">>']
TEXTS = ["", "{", "[", "{}x", "x", "[]", '["mantisUser"]', "{mantisUser:1}", '[{"mantisUser":"x"}]', "null", "5", '"mantisUser"', '{"mantisUser":"x"', '{"mantisUser" "x"}', '{"mantisUser":}',
         '{"mantisUser":"x",}', "deep", "<xml/>", '{"mantisUser":"x"}{', "'mantisUser'"]
KEYS = ["mantisJobId", "mantisJobName", "mantisUser", "mantisWorkerIndex", "mantisWorkerNumber", "mantisWorkerStageNumber"]
BADKEYS = ["nf.app", "mantisuser", "mantisJobI", "mantisUserX", "", "MANTISUSER"]
OTHER = [("GET", "/foo"), ("POST", "/"), ("POST", "/config"), ("PUT", "/config/common_tags"), ("DELETE", "/config/common_tags"), ("DELETE", "/metrics"), ("DELETE", "/metrics/"),
         ("DELETE", "/metrics/c"), ("DELETE", "/metrics/m"), ("DELETE", "/metrics/c/g1"), ("DELETE", "/metrics/gauges"), ("DELETE", "/metrics/ggg1"), ("DELETE", "/metrics/gxg"), ("DELETE", "/metrics/A?x"),
         ("DELETE", "/metrics/Axg1"), ("GET", "/metrics/A"), ("GET", "/metrics/g/g1"), ("POST", "/metrics"), ("POST", "/metrics/g"), ("PUT", "/metrics/g/g1"), ("HEAD", "/metrics"), ("GET", "/metrics/"),
         ("GET", "/config/"), ("POST", "/config/common_tags/"), ("DELETE", "/metrics/a"), ("DELETE", "/metrics/G/g1"), ("DELETE", "/metricsg/g1"), ("DELETE", "/"), ("PATCH", "/config/common_tags")]


def c14(ctx):
    status = dict(status=False)
    every = [(t, i) for i in (1, 2, 3, 4) for t in "gAcmtdCU"]
    types = "gAcmtdCU"
    up = "{%s}"
    # fixed preparation: gauges and age gauges under every id, the other types under the first
    prep = ['U("g", 1, 3)', 'U("A", 1, 0)', 'U("g", 2, 4)', 'U("A", 2, 8)', 'UX("g", 3, 5, 7000)', 'U("c", 1, 8)', 'U("m", 1, 8)', 'U("t", 1, 8)', 'U("d", 1, 8)', 'U("C", 1, 8)', 'UU(1, <<0, 0, 0, 9>>)', 'U("g", 5, 1)', 'U("A", 4, 1)', 'U("g", 8, 1)', 'U("A", 8, 1)', 'U("g", 9, 1)', 'U("A", 9, 1)', 'U("g", 10, 1)',
            'U("X", 1, 8)']
    prep[-1] = 'UX("X", 1, 8, 1000)'
    after = ["Config", "Metrics", "List", "AllWell", "Metrics"]

    def fixed(mid, nmid=1, raw=RAW, common=(("nf.app", "x"), ("mantisUser", "u0"), ("mantisJobId", "old")), pre=prep):
        seq = pre + [None] * nmid + after
        ops = "CASE " + " [] ".join("Len(st.h) = %d -> %s" % (k, mid if o is None else "{%s}" % o) for k, o in enumerate(seq))
        return dict(ops=ops, depth=len(seq), raw=raw, common=[list(p) for p in common], status=False)
    reqs = ["DelOne(t, i, Local0)", ]
    dels = '{DelOne(t, i, Local0) : t \\in {"A", "g"}, i \\in 1..%d} \\cup {DelEvery(t, Local0) : t \\in {"A", "g"}}' % len(RAW)
    hosts = "{%s}" % ", ".join(HOSTS)
    fams = []
    # deletions, one or two in a row
    fams.append(fixed(dels, 2))
    # who may
    fams.append(fixed('{DelOne(t, 1, hh) : t \\in {"A", "g"}, hh \\in %s} \\cup {DelEvery("g", hh) : hh \\in %s} \\cup {DelEvery("A", hh) : hh \\in %s} \\cup {Post(ObjB(<<Str("mantisUser", "u1")>>), hh) : hh \\in %s}'
                      '\\cup {Adm("root", "GET", "/", hh) : hh \\in %s} \\cup {Adm("metrics", "GET", "/metrics", hh) : hh \\in %s} \\cup {Adm("usage", "GET", "/config/common_tags", hh) : hh \\in %s}'
                      % ((hosts,) * 7)))
    # requests that are not served
    fams.append(fixed("{%s}" % ", ".join('Adm("other", %s, %s, Local0)' % (T.tla(m), T.tla(u)) for m, u in OTHER)))
    # bodies
    vals = ['Str(kk, "v1")', 'Str(kk, "")', 'Raw1(kk, "7")', 'Raw1(kk, "null")', 'Raw1(kk, "true")', 'Raw1(kk, "{}")', 'Raw1(kk, "[]")', 'Raw1(kk, "[\\"x\\"]")', 'Raw1(kk, "1.5")']
    keys = "{%s}" % ", ".join(map(T.tla, KEYS + BADKEYS))
    short = prep[:3] + prep[5:6]
    fams.append(fixed("{Post(TextB(s), Local0) : s \\in {%s}} \\cup {Post(ObjB(<<>>), Local0)}" % ", ".join(map(T.tla, TEXTS)), pre=short))
    fams.append(fixed("UNION {{Post(ObjB(<<m>>), Local0) : m \\in {%s}} : kk \\in %s}" % (", ".join(vals), keys), pre=short))
    k3 = '{"mantisUser", "mantisWorkerIndex", "mantisJobId", "nf.app", "mantis"}'
    v4 = ", ".join(vals[:3])
    fams.append(fixed("{Post(ObjB(<<pq[1], pq[2]>>), Local0) : pq \\in {w \\in MM \\X MM : w[1].k # w[2].k}}", pre=short))
    fams[-1]["defs"] = "MM == UNION {{%s} : kk \\in %s}\n" % (v4, k3)
    odd = ["a b", "x\\u00e9", 'q"uote', "back\\\\slash", "1", "v" * 300]
    fams.append(fixed("{Post(ObjB(<<Str(\"mantisUser\", v)>>), Local0) : v \\in {%s}}" % ", ".join(map(T.tla, ["a b", 'q"uote', "back\\slash", "1", "v" * 300, " ", "null"])), pre=short))
    # random histories, requests between everything else
    cat = '''RandomElement({{U(t, i, v) : t \\in {"g", "A", "c", "m"}, i \\in 1..10, v \\in {0, 3, 8}} \\cup {UX("g", i, 3, 6000) : i \\in 1..10} \\cup {U(t, i, v) : t \\in {"t", "d", "C"}, i \\in 1..2, v \\in {0, 3, 8}},
      {DelOne(t, i, Local0) : t \\in {"A", "g"}, i \\in 1..10} \\cup {DelEvery(t, Local0) : t \\in {"A", "g"}} \\cup {DelOne("g", i, <<"evil.com", "">>) : i \\in 1..3} \\cup {DelEvery("A", <<"localhost.evil.com", "">>)},
      {Post(ObjB(<<RandomElement(MM), RandomElement(NN)>>), Local0), Post(ObjB(<<RandomElement(NN), RandomElement(MM)>>), Local0), Post(ObjB(<<RandomElement(MM)>>), Local0)},
      {Metrics, Config, AllWell}, {Measure, Expire, List, Metrics, Config}, Advs({1, 5001, 6001, 900001}),
      {U("g", i, v) : i \\in 1..10, v \\in {0, 3, 8}}, {U("A", i, v) : i \\in 1..10, v \\in {0, 8}}})'''
    for k, (st, limit) in enumerate(((False, 1000), (True, 1000), (False, 3))):
        fams.append(dict(ops=cat, depth=40, mode="sim", num=700, raw=RAW, status=st, limit=limit, common=[["nf.app", "x"], ["mantisUser", "u0"]], batch=100 if k else 3,
                         defs='MM == UNION {{Str(kk, "v1"), Str(kk, "v2"), Str(kk, ""), Str(kk, "x y")} : kk \\in {"mantisUser", "mantisJobId"}}\n'
                              'NN == UNION {{Str(kk, "v1"), Str(kk, "w"), Str(kk, "")} : kk \\in {"mantisJobName", "mantisWorkerNumber", "mantisWorkerStageNumber"}} \\cup {Str("nf.app", "z"), Raw1("mantisWorkerIndex", "5")}\n'))
    check(ctx, fams)
