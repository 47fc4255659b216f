---------------------------- MODULE Meters ----------------------------
(* The ten kinds of meters as sequential objects: what an update does, what a
   measurement publishes and what it leaves behind. Amounts are integers that
   count units of a size the conformance run chooses (an eighth, unless said
   otherwise; always a power of two, so that the code's arithmetic is exact);
   unsigned monotonic counters hold Wide numbers; times are ticks, Sec of them to the second. A meter is a record with its kind
   in .ty and the time of its last update in .up (age gauges do not use it).   *)
EXTENDS Wide, Buckets, FiniteSets

Kinds == {"c", "g", "m", "C", "U", "X", "d", "t", "A"}

MaxOf(a, b) == IF a > b THEN a ELSE b

CONSTANT Sec
MinTtl == 5 * Sec          \* a gauge lives at least 5 s

New(ty, now, cfgTtl) ==
  CASE ty = "c" -> [ty |-> ty, up |-> now, s |-> 0]
    [] ty = "g" -> [ty |-> ty, up |-> now, ttl |-> MaxOf(MinTtl, cfgTtl), set |-> FALSE, v |-> 0]
    [] ty = "m" -> [ty |-> ty, up |-> now, set |-> FALSE, v |-> 0]
    [] ty = "C" -> [ty |-> ty, up |-> now, has |-> FALSE, v |-> 0, hasp |-> FALSE, p |-> 0]
    [] ty = "U" -> [ty |-> ty, up |-> now, has |-> FALSE, v |-> WZero, hasp |-> FALSE, p |-> WZero]
    [] ty = "X" -> [ty |-> ty, up |-> now, has |-> FALSE, v |-> 0, ts |-> 0, hasp |-> FALSE, p |-> 0, pts |-> 0]
    [] ty = "d" -> [ty |-> ty, up |-> now, n |-> 0, s |-> 0, q |-> 0, mx |-> 0]
    [] ty = "t" -> [ty |-> ty, up |-> now, n |-> 0, s |-> 0, q |-> 0, mx |-> 0]
    [] ty = "A" -> [ty |-> ty, up |-> now, last |-> 0, has |-> FALSE]

(* One update. v: the amount; x: the extra field (gauge: ttl in ticks or 0;
   sampled: timestamp in milliseconds); k: how many times (statsd sampling). *)
Upd(m, now, v, x) ==
  CASE m.ty = "c" -> [m EXCEPT !.up = now, !.s = IF v >= 0 THEN @ + v ELSE @]
    [] m.ty = "g" -> [m EXCEPT !.up = now, !.set = TRUE, !.v = v, !.ttl = IF x > 0 THEN MaxOf(MinTtl, x) ELSE @]
    [] m.ty = "m" -> [m EXCEPT !.up = now, !.set = TRUE, !.v = IF m.set THEN MaxOf(@, v) ELSE v]
    [] m.ty = "C" -> [m EXCEPT !.up = now, !.has = TRUE, !.v = v]
    [] m.ty = "U" -> [m EXCEPT !.up = now, !.has = TRUE, !.v = v]
    [] m.ty = "X" -> IF x < m.ts
                     THEN [m EXCEPT !.up = now]            \* older than the newest sample
                     ELSE [m EXCEPT !.up = now, !.has = TRUE, !.v = v, !.ts = x,
                                    !.hasp = @ \/ m.has,
                                    !.p = IF m.hasp THEN @ ELSE m.v,
                                    !.pts = IF m.hasp THEN @ ELSE m.ts]
    [] m.ty \in {"d", "t"} ->
         IF v < 0 THEN [m EXCEPT !.up = now]
         ELSE [m EXCEPT !.up = now, !.n = @ + 1, !.s = @ + v, !.q = @ + v * v, !.mx = MaxOf(@, v)]
    [] m.ty = "A" -> [m EXCEPT !.has = TRUE, !.last = IF v = 0 THEN now ELSE v * (Sec \div 8)]   \* v: eighths of seconds since the epoch

Expired(m, now, ttl) ==
  CASE m.ty = "A" -> FALSE
    [] m.ty = "g" -> now - m.up > m.ttl
    [] OTHER -> now - m.up > ttl

-----------------------------------------------------------------------
(* Measuring: Pub(m) is the set of published <<rule, statistic, value>>, where
   rule "def" means the statistic yields to one the meter's own tags carry and
   rule "set" that it replaces it. After(m) is the meter afterwards.         *)
Num(n, d) == [n |-> n, d |-> d]
U1(v) == [u1 |-> v]             \* v units
U2(v) == [u2 |-> v]             \* v squared units

(* The conformance runs may move time zero and the epoch seconds given to age gauges by a common
   base behind the epoch; an age gauge that was never set shows the time since the epoch itself. *)
Age(m, now) == [n |-> now - m.last, d |-> Sec, b |-> IF m.has THEN 0 ELSE 1]

UDelta(m) == WSub(m.v, m.p)

XRate(m) == m.has /\ m.hasp /\ m.ts > m.pts       \* there is a finite rate

Pub(m, now) ==
  CASE m.ty = "c" -> IF m.s > 0 THEN {<<"def", "count", U1(m.s)>>} ELSE {}
    [] m.ty = "g" -> IF m.set /\ ~Expired(m, now, 0) THEN {<<"def", "gauge", U1(m.v)>>} ELSE {}
    [] m.ty = "m" -> IF m.set THEN {<<"set", "max", U1(m.v)>>} ELSE {}
    [] m.ty = "C" -> IF m.has /\ m.hasp /\ m.v > m.p THEN {<<"def", "count", U1(m.v - m.p)>>} ELSE {}
    [] m.ty = "U" -> IF m.has /\ m.hasp /\ m.v # m.p
                     THEN {<<"def", "count", IF UDelta(m)[1] >= 32768 THEN U1(0) ELSE [w |-> UDelta(m)]>>} ELSE {}
    [] m.ty = "X" -> IF XRate(m) /\ m.v > m.p
                     THEN {<<"set", "count", [u1 |-> 1000 * (m.v - m.p), d |-> m.ts - m.pts]>>} ELSE {}
    [] m.ty = "d" -> IF m.n > 0 THEN {<<"set", "count", Num(m.n, 1)>>, <<"set", "totalAmount", U1(m.s)>>,
                                      <<"set", "totalOfSquares", U2(m.q)>>, <<"set", "max", U1(m.mx)>>} ELSE {}
    [] m.ty = "t" -> IF m.n > 0 THEN {<<"set", "count", Num(m.n, 1)>>, <<"set", "totalTime", U1(m.s)>>,
                                      <<"set", "totalOfSquares", U2(m.q)>>, <<"set", "max", U1(m.mx)>>} ELSE {}
    [] m.ty = "A" -> {<<"def", "gauge", Age(m, now)>>}

After(m) ==
  CASE m.ty = "c" -> [m EXCEPT !.s = 0]
    [] m.ty = "m" -> [m EXCEPT !.set = FALSE, !.v = 0]
    [] m.ty = "C" -> [m EXCEPT !.hasp = m.has, !.p = m.v]
    [] m.ty = "U" -> [m EXCEPT !.hasp = m.has, !.p = m.v]
    [] m.ty = "X" -> IF XRate(m) THEN [m EXCEPT !.p = m.v, !.pts = m.ts] ELSE m
    [] m.ty \in {"d", "t"} -> [m EXCEPT !.n = 0, !.s = 0, !.q = 0, !.mx = 0]
    [] OTHER -> m

(* What the accessors of a meter show without changing it (for the admin API and
   the registry's listings). *)
NoNum == [s |-> "nan"]
Shown(m, now) ==
  CASE m.ty = "c" -> U1(m.s)
    [] m.ty = "g" -> IF m.set THEN U1(m.v) ELSE NoNum
    [] m.ty = "m" -> IF m.set THEN U1(m.v) ELSE NoNum
    [] m.ty = "C" -> IF m.has /\ m.hasp THEN U1(m.v - m.p) ELSE NoNum
    [] m.ty = "U" -> IF m.hasp THEN [w |-> UDelta(m)] ELSE NoNum
    [] m.ty = "X" -> NoNum
    [] m.ty = "d" -> U1(m.s)
    [] m.ty = "t" -> [u1 |-> m.s, x |-> 1000000000]     \* in nanoseconds
    [] m.ty = "A" -> Age(m, now)
=======================================================================
