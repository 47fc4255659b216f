"""C30: the real main program, started with the command lines that Daemon.tla gives."""
import gzip, http.client, json, os, random, shutil, signal, socket, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from . import build as B, tlc as T, smile
from .core import ASAN_ENV, Rejected

A = lambda f, *vs: ["[f |-> %s, v |-> B(%s)]" % (T.tla(f), T.tla(v)) for v in vs]
ARGS = (A("admin_port", "4321", "0", "65536", "0x50") + A("age_gauge_limit", "0", "1", "2", "3", "-1", " 7") +
        A("common_tags", "", "a=b", "a=b,c=d,nf.app=x", "a=b=c", "a=b,a=c", "a=b,", ",a=b", "a", "=b", "a=", "a=b,c", "nf.app=y,,b=c", "k-1=v_2.3", "a b=c d") +
        A("debug", "true", "false", "maybe") + A("enable_external", "true", "No") + A("enable_socket", "false", "1") +
        A("enable_statsd", "true", "0", "") + A("ipv4_only", "t", "F") + A("metatron_dir", "/m/d") +
        A("meter_ttl", "90s", "1h30m", "1.5m", "0", "7", "100000ms", "1m0.25s", "s") + A("no_common_tags", "true", "false") +
        A("nosuch", "1") + A("port", "1", "65535", "4444", "-1", "12a", "", "+77", " 78 ", "0x1F") +
        A("socket_path", "/run/other.unix", "/x/y") + A("statsd_port", "9999", "0", "99999") +
        A("uri", "@/own", "@/api/v4/update", "") + A("verbose", "true", "false") + A("verbose_http", "true"))
CFG = '''CONSTANTS
  Args <- MCArgs
  BuiltUri <- MCUri
  Pick <- %(pick)s
  Depth = %(depth)d
SPECIFICATION Spec
INVARIANTS Sound Strict %(emit)s
%(constraint)s
CHECK_DEADLOCK FALSE
'''


def text(codes):
    return "".join(map(chr, codes))


class Aggregator:
    """Answers 200 to everything and keeps the requests by the first segment of their path."""
    def __init__(s):
        s.seen, s.lock = {}, threading.Lock()
        me = s

        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def do_POST(self):
                body = self.rfile.read(int(self.headers.get("Content-Length", 0)))
                if self.headers.get("Content-Encoding") == "gzip":
                    body = gzip.decompress(body)
                _, case, path = self.path.split("/", 2)
                with me.lock:
                    me.seen.setdefault(case, []).append(("/" + path, body))
                self.send_response(200)
                self.send_header("Content-Length", "0")
                self.end_headers()

            def log_message(self, *a):
                pass
        s.http = ThreadingHTTPServer(("127.0.0.1", 0), H)
        s.http.daemon_threads = True
        threading.Thread(target=s.http.serve_forever, daemon=True).start()
        s.port = s.http.server_address[1]

    def of(s, case):
        with s.lock:
            return list(s.seen.get(case, ()))


def get(port, path):
    c = http.client.HTTPConnection("127.0.0.1", port, timeout=20)
    try:
        c.request("GET", path)
        r = c.getresponse()
        return r.status, json.loads(r.read())
    finally:
        c.close()


def wait(cond, timeout):
    end = time.time() + timeout
    while True:
        x = cond()
        if x or time.time() > end:
            return x
        time.sleep(0.02)


def send(fam, to, lines):
    """False when nobody listens"""
    s = socket.socket(fam, socket.SOCK_DGRAM)
    try:
        s.connect(to)
        for l in lines:
            s.send(l.encode())
        if fam != socket.AF_UNIX:
            s.send(b"")     # (an error of the one before would be reported now)
        return True
    except (ConnectionRefusedError, FileNotFoundError):
        return False
    finally:
        s.close()


def execute(exe, agg, top, i, args, out, base, patience=30):
    """What the daemon does, as Outcome states it; or a text that says what is wrong at once."""
    root = "%s/%d" % (top, i)
    case = "c%d" % i
    os.makedirs(root + "/run")
    uri = "http://127.0.0.1:%d/%s" % (agg.port, case)
    def arg(a):
        v = text(a["v"])
        if i % 4 == 0 and v in ("true", "false"):
            return "--" + ("" if v == "true" else "no") + a["f"]
        return "%s%s=%s" % ("-" if i % 4 == 1 else "--", a["f"], v.replace("@", uri, 1) if a["f"] == "uri" else v)
    argv = [exe] + [arg(a) for a in args]
    if i % 3 == 0:          # left from an earlier process
        for x in out.get("unix", ()):
            os.makedirs(os.path.dirname(root + text(x)), exist_ok=True)
            s = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
            s.bind(root + text(x))
            s.close()
    env = dict(os.environ, VD_ROOT=root, VD_URI=uri, VD_DFLT=base, **ASAN_ENV)
    log = open(root + "/out", "w+b")
    p = subprocess.Popen(argv, cwd=root, env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT)

    def binds():
        try:
            return [l.split(" ") for l in open(root + "/binds").read().splitlines()]
        except FileNotFoundError:
            return []

    def said():
        log.seek(0)
        return log.read().decode("latin1")
    try:
        if out["fails"]:
            wait(lambda: p.poll() is not None, patience)
            if p.poll() is None:
                return "it started, with %s" % binds()
            if p.poll() != 1 or binds():
                return "it ended with status %s and the sockets %s: %s" % (p.poll(), binds(), said()[-300:])
            return None
        n = len(out["binds"]) + len(out["unix"])
        wait(lambda: len(binds()) >= n or p.poll() is not None, patience)
        if p.poll() is not None:
            return "it ended with status %s: %s" % (p.poll(), said()[-300:])
        bs = binds()
        ports, dgram, statsd = {}, None, None
        have = []
        for b in bs:
            if b[0] == "unix":
                have.append((b[1], b[2]))
                ports["unix"] = b[3]
                if os.stat(b[3]).st_mode & 0o222 != 0o222:
                    return "not everyone may send to the socket: %o" % os.stat(b[3]).st_mode
            elif b[1] == "stream":
                have.append(("admin", int(b[2])))
                ports["admin"] = int(b[3])
            else:
                have.append((b[0], int(b[2])))
                ports["statsd" if "line" in ports else "line"] = int(b[3])
        want = sorted([(k, v) for k, v in out["binds"]] + [("dgram", text(x)) for x in out["unix"]], key=str)
        if sorted(have, key=str) != want:
            return "sockets %s, specification %s" % (have, want)
        # every way in
        accepted = set()
        sent = {}
        for kind in ("line", "statsd"):
            for fam, f, host in (("v4", socket.AF_INET, "127.0.0.1"), ("v6", socket.AF_INET6, "::1")):
                if kind in ports:
                    w = "%s.%s" % (kind, fam)
                    if send(f, (host, ports[kind]), ["c:p.%s:1" % w if kind == "line" else "p.%s:1|c" % w]):
                        sent[w] = 1
        if "unix" in ports and send(socket.AF_UNIX, ports["unix"], ["c:p.line.unix:1"]):
            sent["line.unix"] = 1
        send(socket.AF_INET, ("127.0.0.1", ports["line"]), ["A:age.%d:0" % k for k in range(3)])
        want_ways = set(out["ways"])

        def metrics():
            m = get(ports["admin"], "/metrics")[1]
            names = lambda k: {x["name"] for x in m[k]}
            return ({x[2:] for x in names("counters") if x.startswith("p.")}, {x for x in names("age_gauges") if x.startswith("age.")})
        wait(lambda: want_ways <= metrics()[0] and len(metrics()[1]) >= out["ages"], patience)
        here = [b"/" + case.encode()]

        def posted():
            tot, ages, st, tags, paths = {}, set(), False, set(), set()
            for path, body in agg.of(case):
                paths.add(path)
                for pairs, op, x in smile.payload(body):
                    d = dict(pairs)
                    name = d.pop("name")
                    d.pop("statistic", None)
                    if name.startswith("p."):
                        tot[name[2:]] = tot.get(name[2:], 0) + x
                        tags.add(tuple(sorted(d.items())))
                    elif name.startswith("age."):
                        ages.add(name)
                    else:
                        st = True
            return tot, ages, st, tags, paths
        if out["posts"]:
            wait(lambda: want_ways <= set(posted()[0]) and len(posted()[1]) >= out["ages"], patience)
        time.sleep(0.35)
        got_ways, got_ages = metrics()
        if got_ways != want_ways:
            return "lines were taken from %s, specification %s" % (sorted(got_ways), sorted(want_ways))
        if len(got_ages) != out["ages"]:
            return "%d of 3 age gauges are kept, specification %d" % (len(got_ages), out["ages"])
        tot, ages, st, tags, paths = posted()
        c = out["config"]
        want_paths = {text(x) for x in out["posts"]}
        if paths != want_paths:
            return "published at %s, specification %s" % (sorted(paths), sorted(want_paths))
        if want_paths:
            if any(abs(x - 1) > 1e-6 for x in tot.values()):
                return "published as counts %s, specification: 1 each" % tot
            if set(tot) != want_ways or len(ages) != out["ages"] or st != c["status"]:
                return "published %s, %s%s" % (sorted(tot), sorted(ages), " and metrics of its own" if st else "")
            want_tags = {tuple(sorted((text(k), text(v)) for k, v in out["published"]))}
            if tags != want_tags:
                return "published with the tags %s, specification %s" % (tags, want_tags)
        cfg = get(ports["admin"], "/config")[1]
        for k, w in (("uri", text(c["uri"]).replace("@", uri, 1)), ("external_enabled", c["external"]), ("metatron_dir", text(c["metatron"])), ("age_gauge_limit", c["limit"]),
                     ("meter_ttl", c["ttl"]), ("status_metrics_enabled", c["status"]), ("common_tags", {text(k): text(v) for k, v in c["tags"]}),
                     ("batch_size", 10000), ("frequency", 150), ("expiration_frequency", 3600000), ("connect_timeout", 5000), ("read_timeout", 5000)):
            if cfg.get(k) != w or isinstance(cfg.get(k), bool) != isinstance(w, bool):
                return "the configuration has %s = %r, specification %r" % (k, cfg.get(k), w)
        p.send_signal(signal.SIGINT if i % 2 else signal.SIGTERM)
        wait(lambda: p.poll() is not None, patience)
        if p.poll() is None:
            return "it does not end after a signal"
        if p.poll() != 0:
            return "it ended with status %s after a signal: %s" % (p.poll(), said()[-600:])
        if ("[debug]" in said() or "[trace]" in said()) != out["verbose"]:
            return "verbose logging: %s, specification %s" % (not out["verbose"], out["verbose"])
        return None
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
        log.close()
        shutil.rmtree(root, ignore_errors=True)
        with agg.lock:
            agg.seen.pop(case, None)


def have_v6():
    try:
        s = socket.socket(socket.AF_INET6, socket.SOCK_DGRAM)
        s.bind(("::1", 0))
        s.close()
        return True
    except OSError:
        return False


def c30(ctx):
    ex = []

    def bld():
        try:
            ex.append(B.build("drv_daemon", ["drv_daemon.cc"], ["main"], poco=True))
        except Exception as e:
            ex.append(e)
    th = threading.Thread(target=bld)
    th.start()
    fams = [("/dflt", "All", 2, "bfs"), ("", "All", 1, "bfs"), ("/dflt", "One", 5, "sim"), ("/dflt", "One", 9, "sim"), ("", "One", 4, "sim")]
    defs = lambda base: 'MCArgs == <<%s>>\nMCUri == B("%s")\n' % (", ".join(ARGS), "@" + base if base else "")
    rs = T.run_many([dict(module="Daemon", body=defs(b), mode=m, depth=d + 1, num=ctx.scale(300, 3000), seed=ctx.seed * 10 + d, timeout=800,
                          cfg=CFG % dict(pick=p, depth=d, emit="EmitAll" if m == "bfs" else "EmitLast", constraint="CONSTRAINT Ordered" if m == "bfs" else "")) for b, p, d, m in fams], 5)
    ctx.add_model(rs)
    v6 = have_v6()
    cases, seen = [], set()
    for (b, _, _, _), r in zip(fams, rs):
        for o in r.out:
            k = json.dumps([b, o["args"]])
            o["out"]["config"] = o["out"].get("config")
            if k in seen or (not v6 and not o["out"]["fails"] and "line.v6" in o["out"]["ways"]):
                continue
            seen.add(k)
            cases.append((b, o["args"], o["out"]))
    random.Random(ctx.seed).shuffle(cases)
    bad = [c for c in cases if c[2]["fails"]]
    good = [c for c in cases if not c[2]["fails"]]
    cases = bad[:ctx.scale(300, 4000)] + good[:ctx.scale(900, 8000)]
    ctx.log("%d command lines, %d of them refused" % (len(cases), min(len(bad), ctx.scale(300, 4000))))
    th.join()
    if isinstance(ex[0], Exception):
        raise ex[0]
    top = tempfile.mkdtemp(prefix="vd.", dir="/tmp")
    agg = Aggregator()
    found = []

    def one(ic):
        i, (b, args, out) = ic
        if found:
            return
        try:
            w = execute(ex[0], agg, top, i, args, out, b)
        except (OSError, http.client.HTTPException, ValueError, smile.Bad, KeyError) as e:
            w = "%s: %s" % (type(e).__name__, e)
        ctx.traces += 1
        if w:
            found.append((len(args), w, args, out, b))
    try:
        with ThreadPoolExecutor(16) as pool:
            list(pool.map(one, enumerate(cases)))
    finally:
        agg.http.shutdown()
        shutil.rmtree(top, ignore_errors=True)
    ctx.sample(cases[0])
    if found:
        _, w, args, out, b = min(found, key=lambda x: x[0])
        show = " ".join("--%s=%s" % (a["f"], text(a["v"])) for a in args)
        raise Rejected("started with %r: %s" % (show, w), dict(driver="drv_daemon", args=show, built_uri=b, specification=out, observed=w))
