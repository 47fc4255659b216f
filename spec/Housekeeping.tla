------------------------ MODULE Housekeeping ------------------------
(* What the daemon reports about itself. At its start and every 30 s it counts the percentile
   meters it keeps, drops those that were idle for more than two minutes, and reports both
   together with the state of the string pool and, when the kernel lists our port, the dropped
   packets and the receive queue. Times are milliseconds since the start.

   A reading of the string pool is only known by the round it was taken in: gauges and
   counters of it carry the number of the round.                                          *)
EXTENDS Meters, Integers, Sequences, TLC, Json

CONSTANTS
  MeterTtl, Status,
  Ops(_),          \* the operations to choose from
  Pick(_),
  Depth

VARIABLES s, h
vars == <<s, h>>

Period == 30000
CacheTtl == 120000
Ttl == IF MeterTtl = 0 THEN 900000 ELSE MeterTtl

\* the reports: what their meter is called
Ids == [tsize   |-> [n |-> "spectatord.percentileCacheSize", t |-> {<<"id", "timer">>}],
        dsize   |-> [n |-> "spectatord.percentileCacheSize", t |-> {<<"id", "dist-summary">>}],
        texp    |-> [n |-> "spectatord.percentileExpired", t |-> {<<"id", "timer">>}],
        dexp    |-> [n |-> "spectatord.percentileExpired", t |-> {<<"id", "dist-summary">>}],
        hit     |-> [n |-> "spectatord.poolAccess", t |-> {<<"id", "hit">>}],
        miss    |-> [n |-> "spectatord.poolAccess", t |-> {<<"id", "miss">>}],
        alloc   |-> [n |-> "spectatord.poolAllocSize", t |-> {}],
        entries |-> [n |-> "spectatord.poolEntries", t |-> {}],
        drop    |-> [n |-> "spectatord.udpPacketsDropped", t |-> {}],
        rx      |-> [n |-> "spectatord.udpRxQueue", t |-> {}],
        parsed  |-> [n |-> "spectatord.parsedCount", t |-> {}],
        errors  |-> [n |-> "spectatord.parseErrors", t |-> {}],
        uptime  |-> [n |-> "spectatord.uptime", t |-> {}]]
Type == [tsize |-> "g", dsize |-> "g", texp |-> "c", dexp |-> "c", hit |-> "C", miss |-> "C", alloc |-> "g", entries |-> "g",
         drop |-> "C", rx |-> "m", parsed |-> "c", errors |-> "c", uptime |-> "A"]
Pooled == {"hit", "miss", "alloc", "entries"}

Put(reg, now, k, v) ==
  LET m == IF k \in DOMAIN reg THEN reg[k] ELSE New(Type[k], now, MeterTtl)
  IN IF Status THEN (k :> Upd(m, now, v, 0)) @@ reg ELSE reg

Idle(cache, now) == {n \in DOMAIN cache : now - cache[n] > CacheTtl}
Without(f, ks) == [n \in DOMAIN f \ ks |-> f[n]]

\* one round of housekeeping at time x.t
Round(x) ==
  LET it == Idle(x.ct, x.t)
      id == Idle(x.cd, x.t)
      r1 == Put(Put(x.reg, x.t, "tsize", Cardinality(DOMAIN x.ct)), x.t, "dsize", Cardinality(DOMAIN x.cd))
      r2 == Put(Put(r1, x.t, "texp", Cardinality(it)), x.t, "dexp", Cardinality(id))
      r3 == IF x.tab = <<>> THEN r2 ELSE Put(Put(r2, x.t, "drop", x.tab[2]), x.t, "rx", x.tab[1])
      r4 == Put(Put(Put(Put(r3, x.t, "hit", x.nr), x.t, "miss", x.nr), x.t, "alloc", x.nr), x.t, "entries", x.nr)
  IN [x EXCEPT !.ct = Without(@, it), !.cd = Without(@, id), !.reg = r4, !.nr = @ + 1]

RECURSIVE Until(_, _)
Until(x, t) ==
  LET next == (x.t \div Period + 1) * Period
  IN IF next <= t THEN Until(Round([x EXCEPT !.t = next]), t) ELSE [x EXCEPT !.t = t]

-----------------------------------------------------------------------
Log(op, obs) == h' = Append(h, [o |-> op, r |-> obs])

Lived(k) == ~Expired(s.reg[k], s.t, Ttl)
StatOf(k) == IF Type[k] \in {"c", "C"} THEN "count" ELSE IF Type[k] = "m" THEN "max" ELSE "gauge"
\* (times here are milliseconds, so that an age is in seconds already)
ValueOf(k) ==
  LET m == s.reg[k] IN
  IF k \in Pooled THEN (IF Type[k] = "C" THEN [k |-> k, from |-> m.p, to |-> m.v] ELSE [k |-> k, from |-> -1, to |-> m.v])
  ELSE [k |-> k, v |-> (CHOOSE p \in Pub(m, s.t) : TRUE)[3]]
Published == {[n |-> Ids[k].n, t |-> Ids[k].t \cup {<<"statistic", StatOf(k)>>}, v |-> ValueOf(k)]
              : k \in {q \in DOMAIN s.reg : Lived(q) /\ Pub(s.reg[q], s.t) # {}}}

Do(op) ==
  CASE op.op = "adv" -> s' = TLCEval(Until(s, s.t + op.dt)) /\ Log(op, [x |-> 0])
    [] op.op = "line" ->       \* a line with a percentile timer or summary (or neither), well formed or not; a datagram takes a millisecond
         /\ LET x == [s EXCEPT !.reg = Put(@, s.t, IF op.ok THEN "parsed" ELSE "errors", 1),
                               !.ct = IF op.ok /\ op.ty = "T" THEN (op.n :> s.t) @@ @ ELSE @,
                               !.cd = IF op.ok /\ op.ty = "D" THEN (op.n :> s.t) @@ @ ELSE @]
            IN s' = TLCEval(Until(x, s.t + 1))
         /\ Log(op, [x |-> 0])
    [] op.op = "table" -> s' = [s EXCEPT !.tab = op.tab] /\ Log(op, [x |-> 0])
    [] op.op = "delall" -> s' = [s EXCEPT !.reg = Without(@, {k \in DOMAIN s.reg : Type[k] = op.ty})] /\ Log(op, [x |-> 0])
    [] op.op = "measure" ->
         /\ s' = [s EXCEPT !.reg = [k \in DOMAIN s.reg |-> IF Lived(k) THEN After(s.reg[k]) ELSE s.reg[k]]]
         /\ Log(op, [pub |-> Published])

Start == [t |-> 0, ct |-> <<>>, cd |-> <<>>, tab |-> <<>>, nr |-> 0,
          reg |-> [k \in {"parsed", "errors"} |-> New("c", 0, MeterTtl)] @@
                  (IF Status THEN ("uptime" :> Upd(New("A", 0, MeterTtl), 0, 0, 0)) ELSE <<>>)]
Init == s = Until(Round(Start), 500) /\ h = <<>>
Next == Len(h) < Depth /\ \E op \in Pick(Ops(s)) : Do(op)
Spec == Init /\ [][Next]_vars

(* the moments after which an entry is dropped at the next round *)
Moments(x) == {d \in {x.ct[n] + CacheTtl - x.t + e : n \in DOMAIN x.ct, e \in {0, Period}} : d > 0}

\* no entry is kept for longer than its idle time and one round
Bounded == \A n \in DOMAIN s.ct : s.t - s.ct[n] <= CacheTtl + Period
\* without status metrics there are none
Quiet == Status \/ \A k \in DOMAIN s.reg : Type[k] = "c" /\ s.reg[k].s = 0

All(S) == S
One(S) == {RandomElement(S)}
Emitting == IF Len(h) = Depth THEN PrintT("@@" \o ToJson(h)) ELSE TRUE
=======================================================================
