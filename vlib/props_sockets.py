"""C25: the sockets the lines arrive on. Histories of datagrams come from Sockets.tla and Serve.tla."""
import json, random, shutil, tempfile, threading
from . import build as B, tlc as T
from .core import Rejected, drive

BUFFER = 65536          # of both listeners; one byte of it is for the terminator


def c25(ctx):
    rnd = random.Random(ctx.seed + 25)
    exe = []

    def build():
        try:
            exe.append(B.build("drv_sockets", ["drv_sockets.cc", "vclock.cc"], ["core", "server"]))
        except Exception as e:
            exe.append(e)
    th = threading.Thread(target=build)
    th.start()
    small = [0, 1, 2, 9]
    # the largest UDP datagram over IPv4 has 65507 bytes, over IPv6 65527
    sizes = {"udp4": [0, 1, 2, 100, 1500, 8192, 65506, 65507], "udp6": [0, 1, 2, 100, 1500, 8192, 65526, 65527], "udp46": [0, 1, 3, 100, 1500, 65507],
             "unix": [0, 1, 2, 100, 1500, 8192, BUFFER - 2, BUFFER - 1, BUFFER, BUFFER + 1, 100000, 150000]}
    errs = [4, 12, 104, 105, 111]          # EINTR ENOMEM ECONNRESET ENOBUFS ECONNREFUSED
    cfg = ("SPECIFICATION Spec\nCONSTANTS\nSizes <- MCSizes\nContents <- MCContents\nErrors <- MCErrors\nBuffer = %d\nRoom = 60000\nDepth = %d\nWeighted = %s\n"
           "INVARIANT Once\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n")
    jobs, own = [], []
    for kind, ss in sizes.items():
        def body(z, c, e):
            return "MCSizes == %s\nMCContents == %s\nMCErrors == %s" % tuple("{" + ", ".join(json.dumps(x) for x in l) + "}" for l in (z, c, e))
        edge = ss[-5:-2] if kind == "unix" else ss[-2:]
        d = ctx.scale(6, 7)
        jobs.append(dict(module="Sockets", body=body([0, 2] + edge, ["same"], [104]), cfg=cfg % (BUFFER, d, "FALSE"), timeout=600))
        own.append(kind)
        d = ctx.scale(25, 40)
        jobs.append(dict(module="Sockets", body=body(ss + small, ["same", "text", "any"], errs), cfg=cfg % (BUFFER, d, "TRUE"), mode="sim", num=ctx.scale(500, 5000), depth=d + 1,
                         seed=ctx.seed, timeout=600))
        own.append(kind)
    socks = [(1,), (1, 2), (1, 3), (1, 2, 3)]
    scfg = "SPECIFICATION Spec\nCONSTANTS\nSockets <- MCSockets\nDepth = 12\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
    for s in socks:
        jobs.append(dict(module="Serve", body="MCSockets == {%s}" % ", ".join(map(str, s)), cfg=scfg, mode="sim", num=ctx.scale(30, 200), depth=13, seed=ctx.seed + len(s), timeout=600))
        own.append(s)
    rs = T.run_many(jobs, 8)
    ctx.add_model(rs)
    cases, wants = [], []
    for o, r in zip(own, rs):
        seen = set()
        for i, x in enumerate(r.out):
            key = json.dumps(x["ops"])
            if key in seen:
                continue
            seen.add(key)
            if isinstance(o, str):
                cases.append(dict(u="listen", kind=o, seed=i % 50, ops=x["ops"]))
            else:
                cases.append(dict(u="serve", v4=i % 2, stale=i // 2 % 2, statsd=int(2 in o), local=int(3 in o), ops=[[a, b, c] for a, b, c in x["ops"]]))
            wants.append(x)
    order = list(range(len(cases)))
    rnd.shuffle(order)
    ctx.log("%d histories" % len(cases))
    th.join()
    if isinstance(exe[0], Exception):
        raise exe[0]
    d = tempfile.mkdtemp(prefix="sock_")
    try:
        got = drive(exe[0], [cases[i] for i in order], args=[d], timeout=600, chunk=max(1, min(60, len(cases) // 16)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    without = 0
    for i, r in zip(order, got):
        c, w = cases[i], wants[i]
        if r is None or r.get("skipped"):
            continue
        info = dict(driver="drv_sockets", case=c, expected=w, observed=r)
        if "crash" in r:
            raise Rejected("%s: %s" % (json.dumps(c)[:600], r["crash"]), info)
        if r.get("without"):
            without += 1
            continue
        ctx.traces += 1
        if c["u"] == "listen":
            ok = len(r["polls"]) == len(w["want"]) and all(len(p) == len(q) and all(k in m for k, m in zip(q, p)) for p, q in zip(r["polls"], w["want"]))
            if not ok:
                raise Rejected("%s listener: after %s it hands over %s, not %s" % (c["kind"], json.dumps(c["ops"])[:800], json.dumps(r["polls"])[:400], json.dumps(w["want"])[:400]), info)
        else:
            count = {k: float(v) for k, v in w["count"].items() if v}
            seen = {k: float(v) for k, v in r["counts"] if float(v)}
            if not r["up"]:
                raise Rejected("the server does not listen on its sockets: %s" % json.dumps(c)[:300], info)
            if seen != count or float(r["parsed"]) != w["good"] or float(r["errors"]) != w["bad"]:
                raise Rejected("server: after %s counters %s parsed %s errors %s, not %s %s %s" %
                               (json.dumps(c["ops"])[:800], seen, r["parsed"], r["errors"], count, w["good"], w["bad"]), info)
            if not r["open"]:
                raise Rejected("server: the Unix socket does not admit everyone: %s" % json.dumps(c)[:300], info)
            if r["took"] > 15000:        # (the janitor's tasks come every 30 s)
                raise Rejected("server: ends only %s ms after SIGTERM" % r["took"], info)
    if without:
        ctx.notes["without_ipv6"] = without
    ctx.sample(cases[len(cases) // 3])

