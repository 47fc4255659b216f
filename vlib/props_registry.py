"""Checks on spec/Registry.tla: the meters, their identity, expiry and percentile meters."""
from fractions import Fraction
from . import reg

F = Fraction
A0 = ("a", [])
STAT = ("b", [("statistic", "x")])
TAGGED = ("a", [("k", "v"), ("id", "2")])


def sim(ops, depth, num, **kw):
    return dict(ops=ops, depth=depth, num=num, mode="sim", **kw)


def bfs(ops, depth, **kw):
    return dict(ops=ops, depth=depth, **kw)


TIMES = "Advs({1, 60000}) \\cup Advs(Deadlines(st))"


def c03(ctx):
    raw = [A0, STAT, TAGGED]
    cat = '''RandomElement({{U("c", i, v) : i \\in 1..3, v \\in {0, 1, 3, 8, 1001, 1234567, -1, -8}},
       {Api("c", i, v) : i \\in 1..3, v \\in {0, 2, 5, -3}} \\cup {Txt(U("c", 1, -1), "nan"), Txt(U("c", 2, -1), "-inf"), Txt(U("c", 3, 0), "-0.0")},
       {Measure, Measure, Expire, List, Get("c", 1, 0)}, %s})''' % TIMES
    reg.check(ctx, [
        bfs('{U("c", 1, 3), U("c", 1, -2), U("c", 2, 5), Txt(U("c", 1, -1), "nan"), Measure, Adv(60000)}', 5, tdepth=6, raw=raw),
        bfs('{U("c", 1, 3), Measure, Adv(900000), Adv(900001), Adv(1), Expire}', 5, tdepth=6, raw=raw),
        sim(cat, 30, 1600, raw=raw),
        sim(cat, 30, 400, raw=raw, unit=F(1, 2 ** 20)),
        sim(cat, 30, 400, raw=raw, unit=F(2 ** 40), status=False)])


def c04(ctx):
    raw = [A0, STAT, TAGGED]
    cat = '''RandomElement({{U("g", i, v) : i \\in 1..3, v \\in {0, 5, -3, 1001}} \\cup {UX("g", i, v, x) : i \\in 1..3, v \\in {0, 7}, x \\in {1000, 5000, 6000, 30000, 1000000}},
       {Api("g", i, v) : i \\in 1..3, v \\in {9, -9}} \\cup {Get("g", i, x) : i \\in 1..2, x \\in {0, 2000, 8000}},
       {Measure, List}, {Measure, Expire, List}, Advs({1, 3000, 5000, 5001}) \\cup Advs(Deadlines(st)), Advs(Deadlines(st))})'''
    cat = cat.replace("Advs(Deadlines(st))})", "{Adv(2)} \\cup Advs(Deadlines(st))})")
    # a ttl longer than any history stands for every longer one
    huge = '''RandomElement({{Ext(UX("g", i, v, 2000000000), e) : i \\in 1..3, v \\in {3, -5}, e \\in {"2000000", "4294967296", "9223372036", "9223372037", "10000000000", "18446744074", "9223372036854775807", "99999999999999999999"}},
       {U("g", i, v) : i \\in 1..3, v \\in {0, 7}}, {UX("g", i, 9, 30000) : i \\in 1..3}, {Measure}, {Measure, Expire, List}, Advs({1, 30001, 900001, 20000000})})'''
    reg.check(ctx, [
        bfs('{U("g", 1, 5), UX("g", 1, 7, 6000), UX("g", 1, 2, 1000), Measure, Adv(3000), Get("g", 1, 0)} \\cup Advs(Deadlines(st))',
            4, tdepth=5, raw=raw, ttl=8 * reg.SEC),
        bfs('{U("g", 1, 5), UX("g", 1, 7, 30000), Measure, Expire} \\cup Advs(Deadlines(st))', 5, tdepth=6, raw=raw, ttl=20 * reg.SEC),
        sim(cat, 30, 1200, raw=raw, ttl=20 * reg.SEC),
        sim(cat, 30, 800, raw=raw, ttl=2 * reg.SEC),
        sim(cat, 30, 400, raw=raw, unit=F(2 ** 900)),
        sim(cat, 30, 400, raw=raw, unit=F(1, 2 ** 60)),
        sim(huge, 20, 800, raw=raw)])


def c05(ctx):
    raw = [A0, STAT, TAGGED]
    cat = '''RandomElement({{U("m", i, v) : i \\in 1..3, v \\in {-1001, -7, -1, 0, 3, 9, 1000}},
       {Api("m", i, v) : i \\in 1..3, v \\in {-8, -2, 4, 10}}, {Measure}, {Measure, Expire, List, Get("m", 1, 0)}, %s})''' % TIMES
    reg.check(ctx, [
        bfs('{U("m", 1, v) : v \\in {-7, -1, 0, 5}} \\cup {U("m", 2, 1), Measure}', 5, tdepth=6, raw=raw),
        sim(cat, 30, 1600, raw=raw),
        sim(cat, 30, 400, raw=raw, unit=F(2 ** 1000)),
        sim(cat, 30, 400, raw=raw, unit=F(1, 2 ** 1000))])


UINTS = [0, 5, 2 ** 64 - 1, 2 ** 62, 2 ** 63 + 2 ** 40, 10 ** 19, 7]
UDEF = "Wd == <<%s>>" % ", ".join(reg.wide(u) for u in UINTS)


def c06(ctx):
    raw = [A0, STAT, TAGGED]
    cat = '''RandomElement({{U("C", i, v) : i \\in 1..3, v \\in {-4, 0, 3, 5, 8, 1000, 123456}}, {UU(i, Wd[j]) : i \\in 1..3, j \\in {1, 2, 3, 4, 5, 7}},
       {Api("C", i, v) : i \\in 1..2, v \\in {1, 6, 90}} \\cup {ApiU(i, Wd[j]) : i \\in 1..2, j \\in {1, 2, 7}},
       {Measure}, {Measure, Expire, List, Get("C", 1, 0), Get("U", 2, 0)}, {Adv(1)} \\cup %s})''' % TIMES
    reg.check(ctx, [
        bfs('{U("C", 1, v) : v \\in {0, 3, 8}} \\cup {Measure, Get("C", 1, 0), List}', 5, tdepth=7, raw=raw),
        bfs('{UU(1, Wd[j]) : j \\in {1, 2, 3, 4, 5}} \\cup {Measure, Get("U", 1, 0)}', 5, tdepth=6, raw=raw, defs=UDEF),
        sim(cat, 30, 2000, raw=raw, defs=UDEF),
        sim(cat, 30, 400, raw=raw, defs=UDEF, unit=F(2 ** 40))])


def c07(ctx):
    raw = [A0, STAT, TAGGED]
    cat = '''RandomElement({{UX("X", i, v, x) : i \\in 1..3, v \\in {-4, 0, 3, 8, 1000}, x \\in {1, 1000, 1500, 2000, 61000, 2000000}},
       {UX("X", i, v, st.now) : i \\in 1..2, v \\in {1, 50, 70, 90}}, {UX("X", 1, v, st.now - 500) : v \\in {2, 4}},
       {Measure}, {Measure, Expire, List, Get("X", 1, 0)}, %s})''' % TIMES
    reg.check(ctx, [
        bfs('{UX("X", 1, v, x) : v \\in {0, 8}, x \\in {1000, 1500, 4000}} \\cup {Measure}', 5, tdepth=6, raw=raw),
        sim(cat, 30, 1600, raw=raw),
        sim(cat, 30, 800, raw=raw, ttl=20 * reg.SEC, unit=F(2 ** 20))])


def c08(ctx):
    raw = [A0, STAT, TAGGED]
    cat = '''RandomElement({{U(t, i, v) : t \\in {"d", "t"}, i \\in 1..3, v \\in {0, 1, 3, 8, 1001, 6000, -1, -8}},
       {Api(t, i, v) : t \\in {"d", "t"}, i \\in 1..3, v \\in {2, 5, -3}} \\cup {Txt(U("d", 1, -1), "nan"), Txt(U("d", 2, 0), "-0.0"), Txt(U("t", 2, -1), "-0.125")},
       {Measure}, {Measure, Expire, List, Get("d", 1, 0), Get("t", 1, 0)}, %s})''' % TIMES
    reg.check(ctx, [
        bfs('{U("d", 1, v) : v \\in {0, 3, 8, -2}} \\cup {Measure, U("t", 1, 3)}', 5, tdepth=6, raw=raw),
        bfs('{U("t", 1, v) : v \\in {0, 3, 8, -2}} \\cup {Measure, U("d", 1, 3)}', 5, tdepth=6, raw=raw),
        sim(cat, 30, 1600, raw=raw),
        sim(cat, 30, 400, raw=raw, unit=F(1, 512)),
        sim(cat, 30, 400, raw=raw, unit=F(64))])


def c09(ctx):
    raw = [A0, STAT, TAGGED, ("p", [("statistic", "percentile"), ("z", "1")])]
    cat = '''RandomElement({{U(t, i, 8 * v) : t \\in {"D", "T"}, i \\in 1..3, v \\in {0, 1, 3, 4, 5, 11, 100, 999, -1}}, {U("T", i, v) : i \\in 1..3, v \\in {0, 1, 13, 6001, -1, -7}},
       {Cached(t, i, 8 * v) : t \\in {"D", "T"}, i \\in 1..3, v \\in {0, 1, 2, 7, 70, 900, -2}}, {Cached(t, i, 8) : t \\in {"D", "T"}, i \\in 1..3},
       {U("t", 1, 2), U("d", 1, 16), Get("t", 2, 0), Get("d", 2, 0)},
       {Measure}, {Measure, Expire, List}, {Expire, CExpire("T"), CExpire("D")}, {Adv(60000)} \\cup Advs(Deadlines(st))})'''
    nano = '''RandomElement({{Cached("T", i, v) : i \\in 1..2, v \\in {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 15, 16, 17, 100, 4096, 10000}}, {Measure}, {Measure, Expire, CExpire("T")},
       {Adv(60000)} \\cup Advs(Deadlines(st))})'''
    big = '''RandomElement({{U(t, i, v) : t \\in {"T"}, i \\in 1..3, v \\in {0, 1, 3, 225, 5399, 5400, 5401, 10000}}, {Measure}, {Expire, CExpire("T")}, {Adv(60000)}})'''
    bigd = '''RandomElement({{U("D", i, v) : i \\in 1..3, v \\in {0, 1, 2, 3, 4, 5, 7, 11, 2000, 8191}}, {Measure}, {Expire, CExpire("D")}, {Adv(60000)}})'''
    reg.check(ctx, [
        bfs('{U("T", 1, v) : v \\in {0, 24, -8}} \\cup {Cached("T", 1, 24), Measure, Expire, CExpire("T")} \\cup Advs({119999, 120000, 120001, 900001})', 4, tdepth=5, raw=raw),
        bfs('{U("D", 1, v) : v \\in {0, 24, -8}} \\cup {Cached("D", 1, 24), Measure, Expire, CExpire("D"), Adv(900001)}', 4, tdepth=5, raw=raw),
        sim(cat, 30, 1600, raw=raw),
        sim(cat, 30, 400, raw=raw, ttl=100 * reg.SEC),
        sim(nano, 30, 400, raw=raw, unit=F(1, 10 ** 9)),
        sim(big, 20, 400, raw=raw, unit=F(16)),
        sim(bigd, 20, 400, raw=raw, unit=F(2 ** 50))])


def c11(ctx):
    k, v, id_, two = "k", "v", "id", "2"
    raw = [A0, ("a", [(k, v)]), ("a", [(k, v), (id_, two)]), ("a", [(id_, two), (k, v)]), ("a", [(k, "w"), (id_, two), (k, v)]),
           ("a", [(k, v), (k, v)]), ("a", [(k, "w")]), ("a", [("k!", v)]), ("a", [("k_", v)]), ("a b", []), ("a_b", []), ("A", []),
           ("a", [(k, "v$")]), ("a", [(k, "v_")]), ("a", [("k$", "1"), ("k!", v)]), ("k", [("a", v)]), ("a", [(v, k)]),
           ("a", [("k", "v"), ("statistic", "count")]), ("a", [("statistic", "gauge"), ("k", "v")]),
           ("a.%d" % 1, [("t%d" % i, "v") for i in range(1, 12)]), ("a.%d" % 1, [("t%d" % i, "v") for i in range(11, 0, -1)]),
           ("a.%d" % 1, [("t%d" % i, "v") for i in range(1, 11)])]
    raw += [("a.%d" % 1, [("t%d" % i, "w" if i == j else "v") for i in range(1, 12)]) for j in range(1, 12)]
    n = len(raw)
    cat = '''RandomElement({{U(t, i, 8) : t \\in {"c", "g", "m", "d", "t", "C", "D", "T", "A"}, i \\in 1..%d}, {Api(t, i, 8) : t \\in {"c", "g", "m", "d", "t"}, i \\in 1..%d}, {U("c", i, j) : i \\in 1..%d, j \\in 1..5},
       {Measure, List}, {Get(t, i, 0) : t \\in {"c", "g", "m", "d", "t", "C", "A"}, i \\in 1..%d}, {Del(t, i) : t \\in {"g", "A"}, i \\in 1..%d}})''' % ((n,) * 5)
    pairs = '{U("c", i, 8) : i \\in 1..%d} \\cup {U("g", i, 8) : i \\in 1..2}' % n
    reg.check(ctx, [
        bfs('IF Len(st.h) = 2 THEN {List} ELSE IF Len(st.h) = 3 THEN {Measure} ELSE ' + pairs, 4, raw=raw),
        sim(cat, 25, 2000, raw=raw)])


def c12(ctx):
    raw = [A0, STAT, TAGGED]
    cat = '''RandomElement({{U(t, i, 8) : t \\in {"c", "g", "m", "d", "t", "C", "D", "T"}, i \\in 1..2} \\cup {U("C", i, j) : i \\in 1..2, j \\in {1, 20, 300}} \\cup {UU(1, <<0, 0, 0, j>>) : j \\in {5, 9}} \\cup {UX("X", 1, j, st.now) : j \\in {5, 9}}
         \\cup {UX("g", 3, 8, 60000), U("A", 1, 0)} , {U("c", 1, -8), U("t", 1, -8), U("d", 1, -8), U("A", 2, 800), U("m", 1, -8)},
       {Get(t, i, 0) : t \\in {"c", "g", "m", "d", "t", "C", "U", "X", "A"}, i \\in 1..2}, {Bad("c:x"), Bad("q:a:1"), Bad("")} \\ {Bad("")},
       {Measure}, {Measure, List}, {Expire}, {Expire, List}, {Adv(60000)} \\cup Advs(Deadlines(st)), {Adv(1)} \\cup Advs(Deadlines(st))})'''
    reg.check(ctx, [
        bfs('{U(t, 1, 8) : t \\in {"c", "T"}} \\cup {Measure, Expire, List, Adv(900000), Adv(900001), Bad("c:x")}', 4, tdepth=5, raw=raw),
        bfs('{U(t, 1, 8) : t \\in {"g", "m", "d", "C"}} \\cup {UX("X", 1, 8, st.now), Measure, Expire} \\cup Advs(Deadlines(st))', 4, tdepth=5, raw=raw, ttl=10 * reg.SEC),
        sim(cat, 35, 1600, raw=raw),
        sim(cat, 35, 800, raw=raw, ttl=30 * reg.SEC),
        sim(cat, 35, 400, raw=raw, ttl=0),
        sim(cat, 35, 400, raw=raw, status=False)])


def c13(ctx):
    raw = [A0, STAT, TAGGED, ("z", [])]
    cat = '''RandomElement({{U("A", i, v) : i \\in 1..4, v \\in {0, 1, 7, 9, 800, 4000, 8001, -4}}, {U("A", i, 0) : i \\in 1..4}, {Api("A", i, 1600) : i \\in 1..2} \\cup {U("g", 1, 8), Get("A", 3, 0), Get("A", 4, 0)},
       {Measure}, {List, Expire}, {Del("A", i) : i \\in 1..4} \\cup {Del("g", 1), Del("c", 1), DelAll("A"), DelAll("g"), DelAll("m")}, Advs({1, 1000, 60000, 900001, 100000000})})'''
    reg.check(ctx, [
        bfs('{U("A", i, v) : i \\in 1..3, v \\in {0, 800}} \\cup {Measure, Del("A", 1), Adv(1500)}', 4, tdepth=5, raw=raw, limit=2),
        sim(cat, 30, 1200, raw=raw, limit=2),
        sim(cat, 30, 400, raw=raw, limit=1),
        sim(cat, 30, 400, raw=raw, limit=0),
        sim(cat, 30, 800, raw=raw),
        sim(cat, 30, 800, raw=raw, base=1700000000),
        sim(cat, 30, 400, raw=raw, base=5000000000, limit=2)])
