------------------------- MODULE Publisher -------------------------
(* Publishing: what a publish interval sends to the aggregator, how often each
   payload is attempted, and how the answers are accounted. Extends the registry,
   whose own status metrics the accounting is made of.                           *)
EXTENDS Registry

CONSTANTS Batch,          \* configured batch size
          Common,         \* initial common tags, a set of pairs
          PubOps(_)       \* operations to choose from, given the state
VARIABLES common, enabled
pvars == <<vars, common, enabled>>

BatchSize == IF Batch < 1 THEN 1 ELSE Batch

-----------------------------------------------------------------------
(* The HTTP client. An attempt is [st |-> status (-1: no response), fail |-> kind, body |-> ..];
   a script gives the attempts of a request, the last one repeating.                          *)
Retryable(a) == a.st = -1 \/ a.st = 429 \/ (a.st >= 500 /\ a.st < 600)
AttemptOf(sc, k) == sc[IF k <= Len(sc) THEN k ELSE Len(sc)]
RECURSIVE Tries(_, _)
Tries(sc, k) == IF k < 3 /\ Retryable(AttemptOf(sc, k)) THEN Tries(sc, k + 1) ELSE k    \* number of attempts
Last(sc) == AttemptOf(sc, Tries(sc, 1))
IpcStatus(a) == IF a.st = -1 THEN "unknown" ELSE IF a.st \div 100 = 2 THEN "success" ELSE "http_error"
Nth == <<"initial", "second", "third_up">>
IpcId(a, k, final) == [n |-> "ipc.client.call",
  t |-> {<<"owner", "spectatord">>, <<"ipc.endpoint", "_publish">>, <<"http.method", "POST">>,
         <<"http.status", IF a.st = -1 THEN "-1" ELSE ToString(a.st)>>, <<"ipc.attempt", Nth[k]>>,
         <<"ipc.attempt.final", IF final THEN "true" ELSE "false">>,
         <<"ipc.result", IF a.st \div 100 = 2 THEN "success" ELSE "failure">>, <<"ipc.status", IpcStatus(a)>>}]

(* What becomes of a batch of n measurements: [sent, val, http, oth] *)
Usable(b, n) == b.k = "obj" /\ Len(b.ec) = 1 /\ b.ec[1].t = "int" /\ b.ec[1].n >= 0 /\ b.ec[1].n <= n
Account(a, n) ==
  LET none == [sent |-> 0, val |-> 0, http |-> 0, oth |-> 0]
  IN IF a.st = 200 THEN [none EXCEPT !.sent = n]
     ELSE IF a.st = -1 THEN [none EXCEPT !.oth = n]
     ELSE IF a.st >= 500 THEN [none EXCEPT !.http = n]
     ELSE IF a.st \notin {204, 304} /\ Usable(a.body, n) THEN     \* (those have no body)
          [none EXCEPT !.val = a.body.ec[1].n, !.sent = n - a.body.ec[1].n]
     ELSE [none EXCEPT !.oth = n]

-----------------------------------------------------------------------
SumStats == {"count", "totalAmount", "totalTime", "totalOfSquares", "percentile"}
OpOf(id) == IF \E p \in id.t : p[1] = "statistic" /\ p[2] \in SumStats THEN 0 ELSE 10
\* the pairs a measurement is sent with
SentPairs(id) == {<<Sanitize(p[1]), Sanitize(p[2])>> : p \in common} \cup id.t \cup {<<"name", id.n>>}

CountN(r, cid, amount) ==
  IF amount = 0 THEN r
  ELSE LET k == Key("1", cid)
           m == IF k \in DOMAIN r THEN r[k] ELSE [Fresh("c") EXCEPT !.ty = "1"]
       IN (k :> [m EXCEPT !.up = now, !.s = @ + amount]) @@ r
SentId == Owned("spectator.measurements", {<<"id", "sent">>})
DropId(e) == Owned("spectator.measurements", {<<"id", "dropped">>, <<"error", e>>})

Batches(m, op) ==         \* <<size, script>> of every batch
  LET full == m \div BatchSize
      rest == m % BatchSize
  IN [i \in 1..(full + (IF rest > 0 THEN 1 ELSE 0)) |->
        IF i <= full THEN <<BatchSize, op.full[((i - 1) % Len(op.full)) + 1]>> ELSE <<rest, op.last>>]

RECURSIVE Tried(_, _, _)
Tried(r, sc, k) ==        \* every attempt is recorded, at no duration, as a percentile timer would
  LET a == AttemptOf(sc, k)
      final == k = Tries(sc, 1)
      id == IpcId(a, k, final)
      r1 == CountN(UpdIn(r, "t", id, 0, 0), PercId(id, "T", IndexOf(WOfInt(1000000))), 1)
  IN IF final THEN r1 ELSE Tried(r1, sc, k + 1)
RECURSIVE Accounted(_, _, _)
Accounted(r, bs, i) ==
  IF i > Len(bs) THEN r
  ELSE LET n == bs[i][1]
           acc == Account(Last(bs[i][2]), n)
           r1 == CountN(CountN(CountN(CountN(r, SentId, acc.sent), DropId("validation"), acc.val),
                               DropId("http-error"), acc.http), DropId("other"), acc.oth)
       IN Accounted(Tried(r1, bs[i][2], 1), bs, i + 1)
Sum4(bs) == LET RECURSIVE S(_)
                S(i) == IF i = 0 THEN 0 ELSE LET a == Account(Last(bs[i][2]), bs[i][1]) IN a.sent + a.val + a.http + a.oth + S(i - 1)
            IN S(Len(bs))

DoPublish(op) ==
  LET pub == Published
      m == Cardinality(pub)
      goes == enabled /\ m > 0
      bs == IF goes THEN Batches(m, op) ELSE <<>>
      r1 == Measured(reg, m)
  IN /\ reg' = IF goes /\ Status THEN Accounted(r1, bs, 1) ELSE r1
     /\ ghost' = [k \in DOMAIN ghost |-> IF k \in DOMAIN reg THEN [ghost[k] EXCEPT !.out = @ + PubSum(k)] ELSE ghost[k]]
     /\ UNCHANGED <<now, cache, common, enabled>>
     /\ Assert(goes => Sum4(bs) = m, "a measurement is accounted once")
     /\ Log(op, [pub |-> {[n |-> p.id.n, t |-> p.id.t, v |-> p.v, k |-> p.k] : p \in pub},
                 goes |-> goes, last |-> m % BatchSize,
                 attempts |-> [i \in 1..Len(bs) |-> Tries(bs[i][2], 1)],
                 sent |-> IF goes THEN {[t |-> SentPairs(p.id), v |-> p.v, op |-> OpOf(p.id), k |-> p.k] : p \in pub} ELSE {}])

DoBulk(op) ==       \* many counters, timers or gauges at once
  LET ids == {[n |-> "bulk" \o ToString(i), t |-> {<<"i", ToString(i % 50)>>}] : i \in 1..op.n}
  IN /\ reg' = [k \in {Key(op.ty, c) : c \in ids} |-> Upd(IF k \in DOMAIN reg THEN reg[k] ELSE Fresh(op.ty), now, op.v, 0)] @@ reg
     /\ ghost' = IF op.ty \notin {"c", "d", "t"} THEN ghost
                 ELSE [k \in {Key(op.ty, c) : c \in ids} |-> IF k \in DOMAIN ghost THEN [ghost[k] EXCEPT !.added = @ + op.v]
                                                             ELSE [added |-> op.v, out |-> 0, lost |-> 0]] @@ ghost
     /\ UNCHANGED <<now, cache, common, enabled>>
     /\ Log(op, [x |-> 0])

DoCommon(op) ==
  /\ common' = CASE op.op = "tag" -> {p \in common : p[1] # op.k} \cup {<<op.k, op.val>>}
                 [] op.op = "untag" -> {p \in common : p[1] # op.k}
                 [] OTHER -> common
  /\ enabled' = IF op.op = "enable" THEN op.on ELSE enabled
  /\ UNCHANGED <<now, reg, cache, ghost>>
  /\ Log(op, [x |-> 0])

PDo(op) ==
  CASE op.op = "publish" -> DoPublish(op)
    [] op.op = "bulk" -> DoBulk(op)
    [] op.op \in {"tag", "untag", "enable"} -> DoCommon(op)
    [] OTHER -> Do(op) /\ UNCHANGED <<common, enabled>>

PInit == Init /\ common = Common /\ enabled = TRUE
PState == [now |-> now, reg |-> reg, cache |-> cache, h |-> h, common |-> common, enabled |-> enabled]
PNext == /\ Len(h) < Depth
         /\ \E op \in Pick(PubOps(PState)) : PDo(op)
PSpec == PInit /\ [][PNext]_pvars

\* every key at most once among the common tags
CommonOK == \A p, q \in common : p[1] = q[1] => p = q
=====================================================================
