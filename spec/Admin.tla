------------------------- MODULE Admin -------------------------
(* The admin server: which requests it serves, to whom, what they change and what
   they show. Extends the publisher (and with it the registry): every request is an
   operation of the same state machine, so that it can be mixed with updates,
   measurements, expiration and publishing.

   A request is [op |-> "admin", m |-> method, e |-> endpoint, host |-> <<name, port>>, ..]:
   e = "tags" carries a body, e = "A" or "g" carries `all` or the meter `id`.        *)
EXTENDS Publisher

CONSTANTS AdminOps(_)

Local == {"localhost", "127.0.0.1", "[::1]"}
Settable == {"mantisJobId", "mantisJobName", "mantisUser", "mantisWorkerIndex", "mantisWorkerNumber", "mantisWorkerStageNumber"}

\* bodies: not JSON, JSON but not an object, or a sequence of members [k, t, s] with t = "str" or another type
Acceptable(b) == b.k = "obj" /\ \A i \in 1..Len(b.ms) : b.ms[i].k \in Settable /\ b.ms[i].t = "str"
\* the common tags after the members of an object (whose keys differ)
Applied(tags, ms) ==
  LET ks == {ms[i].k : i \in 1..Len(ms)}
      set == {i \in 1..Len(ms) : ms[i].s # ""}
  IN {p \in tags : p[1] \notin ks} \cup {<<ms[i].k, ms[i].s>> : i \in set}

Json == "application/json"
Reply(st, ct) == [st |-> st, ct |-> ct, cfg |-> {}, list |-> {}]

ATags(op) ==
  LET ok == op.host[1] \in Local /\ Acceptable(op.body) IN
  /\ common' = IF ok THEN Applied(common, op.body.ms) ELSE common
  /\ UNCHANGED <<now, reg, cache, ghost, enabled>>
  /\ Log(op, IF op.host[1] \notin Local THEN Reply(400, "") ELSE Reply(IF ok THEN 200 ELSE 400, Json))

ADelete(op) ==
  LET k == Key(op.e, IF op.all THEN [n |-> "", t |-> {}] ELSE CanonOf[op.id])
      may == op.host[1] \in Local
      hit == op.all \/ k \in DOMAIN reg
      gone == IF op.all THEN {q \in DOMAIN reg : q[1] = op.e} ELSE {k}
  IN
  /\ reg' = IF may THEN [q \in DOMAIN reg \ gone |-> reg[q]] ELSE reg
  /\ UNCHANGED <<now, cache, ghost, common, enabled>>
  /\ Log(op, Reply(IF ~may THEN 400 ELSE IF hit THEN 200 ELSE 404, ""))

\* reads; anything else (a method or URI that is not served) is not found
ARead(op) ==
  /\ UNCHANGED <<now, reg, cache, ghost, common, enabled>>
  /\ Log(op, CASE op.e = "root" -> Reply(200, Json)
               [] op.e = "config" -> [Reply(200, Json) EXCEPT !.cfg = common]
               [] op.e = "usage" -> Reply(200, Json)
               [] op.e = "metrics" -> [Reply(200, Json) EXCEPT !.list = Listing]
               [] OTHER -> Reply(404, ""))

ADo(op) ==
  IF op.op # "admin" THEN PDo(op)
  ELSE CASE op.e = "tags" -> ATags(op)
         [] op.e \in {"A", "g"} -> ADelete(op)
         [] OTHER -> ARead(op)

ANext == /\ Len(h) < Depth
         /\ \E op \in Pick(AdminOps(PState)) : ADo(op)
ASpec == PInit /\ [][ANext]_pvars

\* what was not asked for stays: every request leaves the other types and tags as they were
OnlyAsked == [][h' # h /\ h'[Len(h')].o.op = "admin" =>
  LET op == h'[Len(h')].o IN
  /\ op.e \notin {"A", "g"} => reg' = reg
  /\ op.e # "tags" => common' = common
  /\ \A k \in DOMAIN reg : k[1] # op.e => k \in DOMAIN reg' /\ reg'[k] = reg[k]
  /\ DOMAIN reg' \subseteq DOMAIN reg
  /\ op.host[1] \notin Local => reg' = reg /\ common' = common
  /\ \A p \in (common' \ common) \cup (common \ common') : p[1] \in Settable
  /\ h'[Len(h')].r.st # 200 => reg' = reg /\ common' = common]_pvars
=================================================================
