----------------------------- MODULE Lines -----------------------------
(* The two line protocols of the daemon: how a datagram is divided into lines, which
   lines are accepted, and what update each accepted line performs, byte for byte.
   The deliberate leniencies of the code are part of it: text after the number is
   ignored, and so is an `extra` that the type does not use.                       *)
EXTENDS Text, Buckets, Meters, Json

-----------------------------------------------------------------------
(* datagram -> lines *)
RECURSIVE SplitAt(_, _, _)
SplitAt(s, p, from) ==     \* non-empty pieces between newlines
  IF p > Len(s) THEN IF from <= Len(s) THEN <<Sub(s, from, Len(s))>> ELSE <<>>
  ELSE IF s[p] = 10 THEN (IF p > from THEN <<Sub(s, from, p - 1)>> ELSE <<>>) \o SplitAt(s, p + 1, p + 1)
  ELSE SplitAt(s, p + 1, from)
LinesOf(s) ==
  LET z == FirstOf(s, 1, {0})                   \* the text ends at a NUL
      t == IF z = 0 THEN s ELSE Sub(s, 1, z - 1)
  IN SplitAt(t, 1, 1)

Err == [ok |-> FALSE, ty |-> 0, n |-> <<>>, t |-> {}, num |-> NoNumber(1).num, w |-> WZero, x |-> WZero, rate |-> NoNumber(1).num]

AddTag(t, k, v) == {p \in t : p[1] # Clean(k)} \cup {<<Clean(k), Clean(v)>>}

-----------------------------------------------------------------------
(* spectatord protocol: <type>[,extra]:<name>[,k=v]*:<number> *)
RECURSIVE TagsFrom(_, _, _)
\* from the position of a ',' or ':'; [ok, end (position of the ':'), t]
TagsFrom(s, p, t) ==
  IF At(s, p) = 58 THEN [ok |-> TRUE, end |-> p, t |-> t]
  ELSE LET eq == FirstOf(s, p + 1, {61}) IN
       IF eq = 0 THEN [ok |-> FALSE, end |-> p, t |-> {}]
       ELSE LET z == FirstOf(s, eq + 1, {44, 58}) IN
            IF z = 0 THEN [ok |-> FALSE, end |-> p, t |-> {}]
            ELSE TagsFrom(s, z, AddTag(t, Sub(s, p + 1, eq - 1), Sub(s, eq + 1, z - 1)))

Types == {65, 99, 67, 100, 68, 103, 109, 116, 84, 85, 88}    \* A c C d D g m t T U X

ParseLine(s) ==
  LET ty == s[1]
      hasx == At(s, 2) = 44
      xr == Strtoint(s, 3)
      xpos == hasx /\ ~xr.neg /\ xr.w # WZero       \* a positive extra
      c == IF hasx THEN xr.end ELSE 2               \* where the ':' must be
      q == FirstOf(s, c + 1, {44, 58})              \* end of the name
      tg == TagsFrom(s, q, {})
      vp == tg.end + 1
      ur == Strtoint(s, vp)
      dr == Strtod(s, vp)
  IN IF hasx /\ ~xpos /\ ty \in {103, 88} THEN Err
     ELSE IF ~hasx /\ ty = 88 THEN Err
     ELSE IF At(s, c) # 58 THEN Err
     ELSE IF q = 0 \/ q = c + 1 THEN Err
     ELSE IF ~tg.ok THEN Err
     ELSE IF (IF ty = 85 THEN ur.end ELSE dr.end) = vp THEN Err
     ELSE IF ty \notin Types THEN Err
     ELSE [ok |-> TRUE, ty |-> ty, n |-> Clean(Sub(s, c + 1, q - 1)), t |-> tg.t,
           num |-> dr.num, w |-> UintOf(ur), x |-> IF xpos THEN xr.w ELSE WZero, rate |-> NoNumber(1).num]

-----------------------------------------------------------------------
(* statsd: <name>:<number>|<type>[|@rate][|#k:v,...] *)
RECURSIVE StatsdTags(_, _, _, _, _)
\* The scan of the code: b begins the tag and sep is the last ':' noticed in it (0: none); the
\* byte at p has been passed, so that a separator as first byte of a key or value belongs to it.
StatsdTags(s, p, b, sep, t) ==
  LET key(e) == IF sep = 0 THEN Sub(s, b, e - 1) ELSE Sub(s, b, sep - 1)
      val(e) == IF sep = 0 THEN <<49>> ELSE Sub(s, sep + 1, e - 1)
      good(e) == key(e) # <<>> /\ val(e) # <<>>
      q == IF At(s, p + 1) = 58 THEN p + 2 ELSE p + 1
      sep2 == IF At(s, p + 1) = 58 THEN p + 1 ELSE sep
      key2 == IF sep2 = 0 THEN Sub(s, b, q - 1) ELSE Sub(s, b, sep2 - 1)
      val2 == IF sep2 = 0 THEN <<49>> ELSE Sub(s, sep2 + 1, q - 1)
  IN IF At(s, p) = 0 THEN IF good(p) THEN [ok |-> TRUE, t |-> AddTag(t, key(p), val(p))] ELSE [ok |-> FALSE, t |-> {}]
     ELSE IF At(s, q) = 44 THEN IF key2 # <<>> /\ val2 # <<>> THEN StatsdTags(s, q + 1, q + 1, 0, AddTag(t, key2, val2))
                                ELSE [ok |-> FALSE, t |-> {}]
     ELSE StatsdTags(s, q, b, sep2, t)

StatsdTypes == {99, 103, 104, 109, 115}   \* c g h m(s) s
RateOk(n) == n.k \in {"dec", "hex"} /\ Sign(n) = 1 /\
             (IF n.k = "dec" THEN (LET keep == Len(n.ds) + n.e IN keep <= 0 \/ (keep = 1 /\ NoTrail(n.ds) = <<1>>))
              ELSE LET r == TruncInt(n, 6) IN r.ok /\ WLe(r.w, WOfInt(1000000)))

ParseStatsd(s) ==
  LET c == FirstOf(s, 1, {58})
      v == Strtod(s, c + 1)
      ty == At(s, v.end + 1)
      e == IF ty = 109 THEN v.end + 3 ELSE v.end + 2         \* after the type
      rated == At(s, e) = 124 /\ At(s, e + 1) = 64
      r == Strtod(s, e + 2)
      e2 == IF rated THEN (IF At(s, r.end) = 124 THEN r.end + 1 ELSE r.end)
            ELSE IF At(s, e) = 124 THEN e + 1 ELSE 0          \* where '#' may be
      tagged == e2 # 0 /\ At(s, e2) = 35
      tg == StatsdTags(s, e2 + 1, e2 + 1, 0, {})
  IN IF c <= 1 THEN Err
     ELSE IF v.end = c + 1 THEN Err
     ELSE IF At(s, v.end) # 124 THEN Err
     ELSE IF ty \notin StatsdTypes \/ (ty = 109 /\ At(s, v.end + 2) # 115) THEN Err
     ELSE IF rated /\ (r.end = e + 2 \/ ~RateOk(r.num)) THEN Err
     ELSE IF tagged /\ ~tg.ok THEN Err
     ELSE [ok |-> TRUE, ty |-> CASE ty = 99 -> 99 [] ty = 103 -> 103 [] ty = 104 -> 100 [] ty = 109 -> 116 [] OTHER -> 0,
           n |-> Clean(Sub(s, 1, c - 1)), t |-> IF tagged THEN tg.t ELSE {},
           num |-> v.num, w |-> WZero, x |-> WZero, rate |-> IF rated THEN r.num ELSE NoNumber(1).num]

\* round(1 / rate), for rates of at most eight decimals
Times(rate) ==
  IF rate.k = "none" THEN [ok |-> TRUE, k |-> 1]
  ELSE IF rate.k # "dec" THEN [ok |-> FALSE, k |-> 1]
  ELSE LET ds == NoTrail(rate.ds)
           e == rate.e + (Len(rate.ds) - Len(ds))
           a == IntOfDigits(ds, 0)
           p == CASE e = 0 -> 1 [] e = -1 -> 10 [] e = -2 -> 100 [] e = -3 -> 1000 [] e = -4 -> 10000 [] e = -5 -> 100000 [] e = -6 -> 1000000 [] OTHER -> 0
       IN IF p = 0 \/ Len(ds) > 4 THEN [ok |-> FALSE, k |-> 1] ELSE [ok |-> TRUE, k |-> (2 * p + a) \div (2 * a)]

-----------------------------------------------------------------------
(* What an accepted line adds to the next measurement, the meter being new (and, for the
   monotonic sources, known with value 0 (for U: base) at time 0 before): a set of
   [n, t, v, pc, tol], where pc is the set of possible percentile tags ("" for none).  *)
Keyed(u, rule, stat) == IF rule = "def" /\ \E p \in u.t : p[1] = B("statistic") THEN u.t
                        ELSE {p \in u.t : p[1] # B("statistic")} \cup {<<B("statistic"), B(stat)>>}
E(u, rule, stat, v) == [n |-> u.n, t |-> Keyed(u, rule, stat), v |-> v, pc |-> {}]
PercTags(u) == {p \in u.t : p[1] \notin {B("statistic"), B("percentile")}} \cup {<<B("statistic"), B("percentile")>>}

MaxDay == WMulS(WMulS(WMulS(WOfInt(1000000000), 3600), 24), 1)
Clamp(w, lo, hi) == WMin(WMax(w, lo), hi)

Stats(u, total, k, v, vsq) ==
  {E(u, "set", "count", Num(k, 1)), E(u, "set", total, [v EXCEPT !.k = k]),
   E(u, "set", "totalOfSquares", [vsq EXCEPT !.k = k]), E(u, "set", "max", v)}

\* effect of an update: [loose, pub]; loose: a number the code's conversions leave open
Effect(u, statsd, base) ==
  LET ud == WSub(u.w, base)
      sg == Sign(u.num)
      zero == sg = 0
      tm == Times(u.rate)
      ns == TruncInt(u.num, IF statsd THEN 6 ELSE 9)
      int == TruncInt(u.num, 0)
      isint == u.num.k # "dec" \/ u.num.e >= 0
  IN CASE u.ty = 99 -> [loose |-> FALSE, pub |-> IF sg = 1 THEN {E(u, "def", "count", [num |-> u.num, rate |-> u.rate])} ELSE {}]
       [] u.ty = 103 -> [loose |-> FALSE, pub |-> IF sg = 2 THEN {} ELSE {E(u, "def", "gauge", [num |-> u.num])}]
       [] u.ty = 109 -> [loose |-> ~Finite(u.num) \/ Over(u.num), pub |-> IF sg = 2 THEN {} ELSE {E(u, "set", "max", [num |-> u.num])}]
       [] u.ty = 67 -> [loose |-> FALSE, pub |-> IF sg = 1 THEN {E(u, "def", "count", [num |-> u.num])} ELSE {}]
       [] u.ty = 85 -> [loose |-> ud[1] = 32767 /\ ud[2] > 65500,      \* the limit of the code is a little below 2^63
                        pub |-> IF ud = WZero THEN {} ELSE {E(u, "def", "count", IF ud[1] >= 32768 THEN Num(0, 1) ELSE [w |-> ud])}]
       [] u.ty = 88 -> [loose |-> ~WLt(u.x, WMulS(WOfInt(1000000000), 9000)) \/ Over(u.num),
                        pub |-> IF sg = 1 /\ u.num.k # "inf" THEN {E(u, "set", "count", [num |-> u.num, x |-> u.x])} ELSE {}]
       [] u.ty = 100 -> [loose |-> ~tm.ok,
                        pub |-> IF sg \in {0, 1} THEN Stats(u, "totalAmount", tm.k, [num |-> u.num, k |-> 1], [num |-> u.num, sq |-> 1, k |-> 1]) ELSE {}]
       [] u.ty = 116 -> [loose |-> ~tm.ok \/ (~ns.ok /\ sg # 0 - 1) \/ sg = 2 \/ u.num.k = "inf" \/ (sg = 0 - 1 /\ ~ns.ok) \/ (sg = 0 - 1 /\ ns.w = WZero),
                        pub |-> IF sg = 0 - 1 THEN {}
                                ELSE Stats(u, "totalTime", tm.k, [ns |-> ns.w, k |-> 1], [ns |-> ns.w, sq |-> 1, k |-> 1])]
       [] u.ty = 65 -> [loose |-> ~ns.ok \/ ~Finite(u.num),
                        pub |-> {E(u, "def", "gauge", IF zero THEN Num(0, 1) ELSE [age |-> ns.w, neg |-> u.num.neg])}]
       [] u.ty = 84 -> [loose |-> ~ns.ok \/ sg = 2 \/ u.num.k = "inf" \/ (sg = 0 - 1 /\ ns.w = WZero),
                        pub |-> IF sg = 0 - 1 THEN {}
                                ELSE Stats(u, "totalTime", 1, [ns |-> ns.w, k |-> 1], [ns |-> ns.w, sq |-> 1, k |-> 1])
                                     \cup {[n |-> u.n, t |-> PercTags(u), v |-> Num(1, 1),
                                            pc |-> LET near == IF Eighths(u.num) THEN {ns.w} ELSE {ns.w, WAdd(ns.w, WOfInt(1)), IF ns.w = WZero THEN WZero ELSE WSub(ns.w, WOfInt(1))}
                                                   IN {Tag4("T", IndexOf(Clamp(w, WOfInt(1), MaxDay))) : w \in near}]}]
       [] u.ty = 68 -> [loose |-> ~int.ok \/ sg = 2 \/ u.num.k = "inf" \/ (Len(u.num.ds) > 14),
                        pub |-> IF sg = 0 - 1 /\ int.w # WZero THEN {}
                                ELSE Stats(u, "totalAmount", 1, [w |-> int.w, k |-> 1], [w |-> int.w, sq |-> 1, k |-> 1])
                                     \cup {[n |-> u.n, t |-> PercTags(u), v |-> Num(1, 1), pc |-> {Tag4("D", IndexOf(int.w))}]}]
       [] OTHER -> [loose |-> FALSE, pub |-> {}]

-----------------------------------------------------------------------
(* A whole datagram *)
Verdict(datagram, statsd, base) ==
  LET ls == LinesOf(datagram)
      us == TLCEval([i \in 1..Len(ls) |-> IF statsd THEN ParseStatsd(ls[i]) ELSE ParseLine(ls[i])])
      good == {i \in 1..Len(us) : us[i].ok}
      eff == TLCEval([i \in 1..Len(us) |-> IF us[i].ok THEN Effect(us[i], statsd, base) ELSE [loose |-> FALSE, pub |-> {}]])
      keys == {<<us[i].n, us[i].t>> : i \in good}
  IN [d |-> datagram, s |-> statsd, base |-> base, parsed |-> Cardinality(good), bad |-> Len(us) - Cardinality(good),
      loose |-> (\E i \in good : eff[i].loose) \/ Cardinality(keys) < Cardinality(good),
      mono |-> {[ty |-> us[i].ty, n |-> us[i].n, t |-> us[i].t] : i \in {j \in good : us[j].ty \in {67, 85, 88}}},
      pub |-> UNION {eff[i].pub : i \in good}]

(* Properties of the specification itself *)
\* a line on its own has the verdict it has within any datagram
Independent(datagram, statsd) ==
  LET ls == LinesOf(datagram)
      v == Verdict(datagram, statsd, WZero)
      each == TLCEval([i \in 1..Len(ls) |-> Verdict(ls[i], statsd, WZero)])
      RECURSIVE Sum(_)
      Sum(i) == IF i = 0 THEN 0 ELSE each[i].parsed + Sum(i - 1)
  IN /\ v.parsed = Sum(Len(ls)) /\ v.parsed + v.bad = Len(ls)
     /\ v.pub = UNION {each[i].pub : i \in 1..Len(ls)}
\* a line is rejected without effect
Harmless(datagram, statsd) == LET v == Verdict(datagram, statsd, WZero) IN v.parsed = 0 => v.pub = {} /\ v.mono = {}

-----------------------------------------------------------------------
(* The environment: datagrams. Exhaustive runs start in every one of a set; random ones
   grow a datagram line by line and then damage some of its bytes.                    *)
CONSTANTS Inputs,       \* initial datagrams
          Grow(_),      \* datagrams that may follow a datagram
          Steps,        \* after how many steps a datagram is judged
          Statsd
VARIABLES dgram, step     \* (names that no definition uses for anything else: TLC caches constants by name)
Init == dgram \in Inputs /\ step = 0
Next == step < Steps /\ dgram' \in Grow(dgram) /\ step' = step + 1
Spec == Init /\ [][Next]_<<dgram, step>>
Good == step = Steps => LET ls == LinesOf(dgram) IN (Len(ls) > 1 => Independent(dgram, Statsd)) /\ Harmless(dgram, Statsd)
\* values a U counter may have had before: all of them for a U line, one of them for several lines
Bases == <<WZero, WMaxInt64, <<32768, 0, 0, 0>>, <<65535, 65535, 65535, 65436>>, <<0, 0, 0, 5>> >>
Emitting ==
  IF step # Steps THEN TRUE
  ELSE \A i \in 1..Len(Bases) :
         IF (IF Statsd \/ At(dgram, 1) # 85 THEN i = 1 + (IF Statsd THEN 0 ELSE Len(dgram) % Len(Bases)) ELSE TRUE)
         THEN PrintT("@@" \o ToJson(Verdict(dgram, Statsd, Bases[i]))) ELSE TRUE

Pick(S) == RandomElement(S)
\* one damaged byte
Damage(s, bytes) ==
  LET k == Pick(1..3)
      p == Pick(1..(Len(s) + 1))
  IN IF s = <<>> THEN s
     ELSE CASE k = 1 -> Sub(s, 1, p - 1) \o <<Pick(bytes)>> \o Sub(s, p, Len(s))
            [] k = 2 -> Sub(s, 1, p - 1) \o Sub(s, p + 1, Len(s))
            [] k = 3 -> Sub(s, 1, p - 1) \o <<Pick(bytes)>> \o Sub(s, p + 1, Len(s))
========================================================================
