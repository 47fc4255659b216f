#!/usr/bin/env python3
"""check.py <property id>: runs one check (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, props_registry as R, props_lines as L, props_publish as P, props_admin as A, props_conc as K, props_units as N, props_sockets as S, props_life as F, props_daemon as D, props_send as Z

CHECKS = {
    "C01": L.c01, "C02": L.c02,
    "C03": R.c03, "C04": R.c04, "C05": R.c05, "C06": R.c06, "C07": R.c07, "C08": R.c08, "C09": R.c09,
    "C15": P.c15, "C16": P.c16, "C17": P.c17,
    "C14": A.c14,
    "C22": K.c22, "C23": K.c23,
    "C10": N.c10, "C18": N.c18, "C19": N.c19, "C20": N.c20, "C21": N.c21, "C26": N.c26, "C27": N.c27, "C28": N.c28,
    "C24": F.c24, "C25": S.c25, "C29": F.c29, "C30": D.c30, "C31": Z.c31,
    "C11": R.c11, "C12": R.c12, "C13": R.c13,
}

REPLAY = "TLA+ specification checked with TLC; its behaviours replayed on the code under virtual time"
REG = ("Every history of the stated operations up to the bounded depth, and seeded random long ones, from Registry.tla/Meters.tla; "
       "TLC checks conservation, staleness and bound invariants on the specification, the driver compares everything the real registry "
       "publishes and lists. Trusts: g++/ASan, interposed clocks. Amounts are dyadic so that the arithmetic is exact.")
META = {i: (REPLAY, REG) for i in ("C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C13")}

for i in ("C01", "C02"):
    META[i] = ("TLA+ specification of the protocol evaluated by TLC on enumerated and grown datagrams, each replayed on the real parser and registry",
               "Lines.tla decides every line of a datagram byte by byte; all products of interesting fields, all short texts over the separators, "
               "and seeded damaged multi-line datagrams are judged by it and sent to the real server code; TLC also checks that lines are independent "
               "and rejected ones without effect. Trusts: g++/ASan, strtod of the C library for rounding only.")
for i in ("C15", "C16"):
    META[i] = ("TLA+ specification of publishing checked with TLC; its behaviours replayed on the real publisher and HTTP client against a scripted server",
               "Publisher.tla (on Registry.tla) gives every payload's content, attempts and accounting; the payloads the server receives are decompressed, decoded and "
               "compared, the accounting is read from the next measurements. Every answer of a catalogue of statuses and bodies per batch, random interval histories. "
               "Trusts: g++/ASan, libcurl, loopback sockets, the decoder in vlib/smile.py. Thread interleavings of the sender pool are sampled, not enumerated.")
META["C17"] = ("TLA+ specification of the retry protocol checked with TLC; every behaviour replayed on the real HTTP client against a scripted server",
               "Http.tla: all sequences of up to three attempt outcomes (21 kinds: statuses, refused and hanging connections, resets, truncated, malformed and late responses) "
               "and random runs of several requests; requests seen, response and recorded attempts are compared. Trusts: libcurl, loopback sockets; waiting between attempts is not slept.")

META["C14"] = ("TLA+ specification of the admin API checked with TLC; its behaviours replayed as HTTP requests on the real admin server",
               "Admin.tla (on Publisher.tla and Registry.tla): every request of a catalogue (methods, URIs, 19 host headers, bodies with up to two members over all keys and value types, one or two "
               "deletions) on a filled registry, and random histories mixing requests with updates, expiration and publishing; statuses, listings, configuration and published payloads are compared. "
               "TLC checks that requests change only what was asked. Trusts: Poco, loopback sockets.")

META["C22"] = ("TLA+ specification of a meter under concurrent use; every distinct history of the real code under a controlled scheduler is explained by it with TLC",
               "Conc.tla (on Meters.tla): TLC checks conservation on all interleavings of the programs; the real meters, compiled with thread-sanitizer instrumentation against the "
               "scheduler of harness/dsched.cc, run all interleavings of their synchronisation operations up to a bound of preemptions (and random ones beyond it), each recorded history "
               "is validated by TLC, data races and uses of freed memory are errors. Sequentially consistent executions; races by happens-before.")

META["C23"] = ("TLA+ specification of concurrent registry use; every distinct history of the real code under a controlled scheduler is explained by it with TLC",
               "ConcReg.tla (on Meters.tla): one meter per id, no update lost to an expired meter, one cache entry per id are checked by TLC on all interleavings of small programs; the real registry, "
               "caches and parser run all interleavings of their synchronisation operations up to a bound of preemptions (and random ones beyond it); results, identities and precedence of "
               "each history are validated by TLC, data races and uses of freed memory are errors. Sequentially consistent executions; races by happens-before.")

UNIT = "TLA+ specification of the part; every result of the real code on enumerated and grown inputs is judged by it with TLC"
GEN = "TLA+ specification of the part checked with TLC; its behaviours replayed on the real code"
META["C10"] = (UNIT, "Percentiles.tla/Buckets.tla give the table of the scheme, bucket and estimate: all 276 buckets and their neighbourhoods, all amounts below 2^24 (thorough: 2^30) and seeded random ones are "
               "compared with the table TLC computes from the recursive definition; estimates of seeded counts are bounded by the specification with a relative tolerance of 10^-12. "
               "Trusts: g++/ASan; amounts above the scan are sampled, with every bucket's bounds.")
META["C18"] = (UNIT, "Smile.tla decodes the bytes the real encoder wrote, element by element, by the rules of the format; single values of all kinds and sizes and seeded sequences (reuse of one encoder included). "
               "Payloads of real size are decoded by vlib/smile.py. Trusts: g++/ASan.")
META["C19"] = (GEN + "; one-shot calls judged by it", "Compress.tla: every history of appended pieces, results and inits up to depth 4 (thorough: 5) for chunk configurations that make every boundary reachable, random long ones, also with the "
               "production sizes; the result must decompress (zlib of Python) to exactly the pieces. OneShot.tla judges the gzip functions over sizes, cut and flipped inputs and output sizes. Trusts: zlib, g++/ASan.")
META["C20"] = (GEN, "Tags.tla: every history of a small alphabet of operations on three tag sets and random long ones, contents, sizes, comparison, lookup and iteration after each step compared; heap use counted so "
               "that whatever is not released is an error. Trusts: g++/ASan. Hash: equality implies equal hashes.")
META["C21"] = (UNIT, "Pool.tla explains the results of interning (identity, content, statistics) for seeded strings with shared bytes, zero bytes and lengths; concurrent interning runs under the controlled scheduler "
               "in C23. Trusts: g++/ASan.")
META["C24"] = ("TLA+ specification of starting, stopping and the background threads; every distinct history of the real code under a controlled scheduler is explained by it with TLC",
               "Lifecycle.tla gives the times and order of publications, attempts, expirations and housekeeping; TLC checks on its own histories that a stop is prompt and nothing happens after it. The real registry, "
               "publisher, client (libcurl replaced by a stand-in that takes virtual time) and server (real sockets and signal) run all sequences of start, stop and sleep up to three operations, under "
               "all interleavings at one preemption up to a bound (exhaustively for the short ones) and random ones; each distinct history is validated by TLC; threads that remain, data races, uses of freed "
               "memory and deadlocks are errors. Trusts: the scheduler; sequentially consistent executions.")
META["C25"] = (GEN, "Sockets.tla: every history of datagrams, failing receive calls and turns of the listener up to depth 5 (thorough: 6) over the sizes around the bounds, and random long ones, on the real UDP (IPv4, IPv6, "
               "IPv4 to an IPv6 socket) and Unix listeners over loopback; Serve.tla: the whole server with each combination of sockets, the counters after its end. Trusts: the kernel's datagram sockets (in order, "
               "lossless below the buffer size).")
META["C26"] = (UNIT, "Kernel.tla gives the reports for a table text: seeded tables with every field, port and socket combination, numbers up to the range, and damaged lines, and /proc/self-style inputs; each result is judged. "
               "Trusts: g++/ASan.")
META["C27"] = (UNIT, "Paths.tla gives the path of a URL: all texts over the alphabet of separators up to length 5 or so (in one driver run each) and seeded URLs. Trusts: g++/ASan.")
META["C28"] = (GEN + "/judged by it", "Watch.tla explains the answers of the real watchers over all histories of creation, removal, moves, copies and time up to a bound and random long ones, on real files in a scratch directory with virtual "
               "time. Trusts: g++/ASan.")
META["C29"] = (GEN, "Housekeeping.tla gives each report: every history of lines, time, kernel tables, publications and deletions up to depth 5 (thorough: 6) and random ones of 40 operations at the moments around each deadline, for three "
               "meter TTLs and with and without status metrics; the whole real server runs under virtual time with its real sockets, and every reported measurement is compared. String pool readings are bracketed by readings "
               "just before and after the round. Trusts: the stand-in for the kernel's table; the kernel's loopback.")
META["C30"] = ("TLA+ specification of the command line evaluated by TLC on enumerated and random ones; each starts the real daemon and everything it does is compared",
               "Daemon.tla gives the outcome of a command line; every set of up to two of 68 arguments (a seeded sample of 1200 of them with random ones of up to nine arguments in the quick tier, thorough: all) starts the real main program as a process, "
               "in a directory of its own; its sockets, /config, /metrics, publications at an HTTP server, log and exit status are compared. Trusts: absl's handling of the argument vector; the interposed bind that maps ports.")
META["C31"] = ("TLA+ specification of the sender threads checked with TLC, which judges the histories of the real publisher under an exploring scheduler",
               "Senders.tla allows the orders and times of requests, their contents and the counts; TLC checks that each measurement is settled once and that every stop ends, for every order and answer of small programs. The real "
               "registry and publisher run with 1 to 3 sender threads under a scheduler that picks every step (seeded random schedules, and systematic ones near the one without preemption), with a race detector, virtual time and a "
               "stand-in for libcurl; each distinct history and each decoded payload is judged. Trusts: the stand-in, asio's pool and the interposed synchronization.")

if __name__ == "__main__":
    pid = sys.argv[1]
    if "--thorough" in sys.argv:
        os.environ["VERIF_TIER"] = "thorough"
    sys.exit(core.main(pid, "model_checking", CHECKS[pid]))
