--------------------------- MODULE Registry ---------------------------
(* The meter registry of the daemon, its protocol front end, percentile caches,
   measurements, expiration and deletion, as one sequential state machine over
   virtual time. One action per operation of the code; `h` (when KeepHistory) is
   the sequence of operations with what the code must show for each.           *)
EXTENDS Meters, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Raw,             \* raw ids: sequence of [n |-> name, t |-> sequence of <<key, value>>]
  MeterTtl,        \* configured meter ttl in ticks, 0 = default (15 min)
  AgeLimit,
  Status,          \* status metrics enabled
  Start,           \* initial time
  UnitNs,          \* Wide: nanoseconds per unit of timer amounts
  UnitW, UnitDen,  \* an amount of v units is v * UnitW / UnitDen (UnitW Wide)
  Ops(_),          \* the operations to choose from, given the state: a set of records
  Pick(_),         \* which of them to explore: all, or a random one
  Depth,           \* history length at which a behaviour is printed
  KeepHistory

VARIABLES now, reg, cache, h, ghost
vars == <<now, reg, cache, h, ghost>>

-----------------------------------------------------------------------
(* identity *)
RECURSIVE LastWins(_, _)
LastWins(t, i) ==     \* the tag set of a sequence of pairs, a later pair for a key winning
  IF i = 0 THEN {}
  ELSE LET r == LastWins(t, i - 1)
       IN {p \in r : p[1] # t[i][1]} \cup {t[i]}
Valid == {SubSeq(v, i, i) : v \in {".-_~^0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"}, i \in 1..67}
RECURSIVE Sanitize(_)
Sanitize(s) ==        \* invalid characters become _
  IF Len(s) = 0 THEN "" ELSE LET c == SubSeq(s, 1, 1) IN (IF c \in Valid THEN c ELSE "_") \o Sanitize(SubSeq(s, 2, Len(s)))
Canon(raw) == LET t == [i \in 1..Len(raw.t) |-> <<Sanitize(raw.t[i][1]), Sanitize(raw.t[i][2])>>]
              IN [n |-> Sanitize(raw.n), t |-> LastWins(t, Len(t))]
CanonOf == TLCEval([i \in 1..Len(Raw) |-> Canon(Raw[i])])

WithTag(cid, k, v) == [n |-> cid.n, t |-> {p \in cid.t : p[1] # k} \cup {<<k, v>>}]
HasTag(cid, k) == \E p \in cid.t : p[1] = k
Emit(cid, rule, stat) == IF rule = "def" /\ HasTag(cid, "statistic") THEN cid ELSE WithTag(cid, "statistic", stat)
PercId(cid, prefix, i) == WithTag(WithTag(cid, "statistic", "percentile"), "percentile", Tag4(prefix, i))

Internal(name) == [n |-> name, t |-> {}]
ParsedId == Internal("spectatord.parsedCount")
ErrorsId == Internal("spectatord.parseErrors")
SizeId == [n |-> "spectator.registrySize", t |-> {<<"owner", "spectatord">>}]
Owned(name, t) == [n |-> name, t |-> t \cup {<<"owner", "spectatord">>}]
SentIds == {Owned("spectator.measurements", {<<"id", "sent">>}),
            Owned("spectator.measurements", {<<"id", "dropped">>, <<"error", "validation">>}),
            Owned("spectator.measurements", {<<"id", "dropped">>, <<"error", "http-error">>}),
            Owned("spectator.measurements", {<<"id", "dropped">>, <<"error", "other">>})}
Internals == SentIds \cup {ParsedId, ErrorsId, SizeId}

-----------------------------------------------------------------------
Ttl == IF MeterTtl = 0 THEN 900 * Sec ELSE MeterTtl
Key(ty, cid) == <<ty, cid>>
Fresh(ty) == New(ty, now, MeterTtl)

\* the registry r after an update of a meter, which is created when missing
UpdIn(r, ty, cid, v, x) ==
  LET k == Key(ty, cid)
      m == IF k \in DOMAIN r THEN r[k] ELSE Fresh(ty)
  IN (k :> Upd(m, now, v, x)) @@ r
GetIn(r, ty, cid) == IF Key(ty, cid) \in DOMAIN r THEN r ELSE (Key(ty, cid) :> Fresh(ty)) @@ r

Count1(r, cid) ==     \* one more increment of a status counter, which adds 1, not 1 unit
  LET k == Key("1", cid)
      m == IF k \in DOMAIN r THEN r[k] ELSE [Fresh("c") EXCEPT !.ty = "1"]
  IN (k :> [m EXCEPT !.up = now, !.s = @ + 1]) @@ r
Parsed(r) == IF Status THEN Count1(r, ParsedId) ELSE r
Rejected(r) == IF Status THEN Count1(r, ErrorsId) ELSE r

\* bucket of an amount
NsOf(v) == WMulS(UnitNs, v)
Day == WMulS(WMulS(WMulS(WOfInt(1000000000), 3600), 24), 1)
TimerBucket(v, lo, hi) == IndexOf(WMin(WMax(NsOf(v), lo), hi))
IntOf(v) == WDivS(WMulS(UnitW, v), UnitDen).q
DistBucket(v, lo, hi) == IndexOf(WMin(WMax(IntOf(v), lo), hi))

\* a D amount is truncated towards zero before it is recorded; only whole amounts
\* are used here (see LineProtocol for fractions)
AgeCount(r) == Cardinality({k \in DOMAIN r : k[1] = "A"})

-----------------------------------------------------------------------
(* What a measurement publishes *)
Live(r) == {k \in DOMAIN r : ~Expired(r[k], now, Ttl)}
PubOf(k) ==
  LET m == reg[k]
  IN IF m.ty = "1" THEN (IF m.s > 0 THEN {<<"def", "count", Num(m.s, 1)>>} ELSE {})
     ELSE IF m.ty = "z" THEN (IF m.n > 0 THEN {<<"set", "count", Num(m.n, 1)>>, <<"set", "totalAmount", Num(m.s, 1)>>,
                                          <<"set", "totalOfSquares", Num(m.q, 1)>>, <<"set", "max", Num(m.mx, 1)>>} ELSE {})
     ELSE Pub(m, now)
AfterOf(m) == IF m.ty = "1" THEN [m EXCEPT !.s = 0]
              ELSE IF m.ty = "z" THEN [m EXCEPT !.n = 0, !.s = 0, !.q = 0, !.mx = 0] ELSE After(m)
Published == UNION {{[k |-> k, id |-> Emit(k[2], p[1], p[2]), v |-> p[3]] : p \in PubOf(k)} : k \in Live(reg)}
Measured(r, size) ==
  LET live == Live(r)
      r1 == [k \in DOMAIN r |-> IF k \in live THEN AfterOf(r[k]) ELSE r[k]]
      k == Key("z", SizeId)
      m == IF k \in DOMAIN r1 THEN r1[k] ELSE [Fresh("d") EXCEPT !.ty = "z"]
  IN IF Status
     THEN (k :> [m EXCEPT !.up = now, !.n = @ + 1, !.s = @ + size, !.q = @ + size * size, !.mx = MaxOf(@, size)]) @@ r1
     ELSE r1

\* what the listings of the registry show, its own meters aside
UserKeys(r) == {k \in DOMAIN r : k[2] \notin Internals}
Listing == {[ty |-> IF k[1] = "1" THEN "c" ELSE k[1], id |-> k[2],
             v |-> IF k[1] = "1" THEN Num(reg[k].s, 1) ELSE Shown(reg[k], now)]
            : k \in {q \in UserKeys(reg) : q[1] # "X"}}

-----------------------------------------------------------------------
Log(op, obs) == h' = IF KeepHistory THEN Append(h, [o |-> op, r |-> obs]) ELSE h

\* g: the ghost account of what was added, published and dropped, per meter (see Conserved)
GhostAdd(k, v) == IF k \in DOMAIN ghost THEN [ghost EXCEPT ![k].added = @ + v]
                  ELSE (k :> [added |-> v, out |-> 0, lost |-> 0]) @@ ghost

\* a well-formed update, by a protocol line, through the percentile caches, or by the API
DoLine(op) ==
  LET cid == CanonOf[op.id]
      ck == <<op.via, op.ty, cid>>     \* the server and the driver have a cache each
      base == IF op.ty = "T" THEN "t" ELSE "d"
      b == IF op.ty = "T" THEN TimerBucket(op.v, WOfInt(1), Day) ELSE DistBucket(op.v, WZero, WMaxInt64)
      perc == op.ty \in {"T", "D"}
      r1 == IF ~perc THEN
              IF op.ty = "A" /\ Key("A", cid) \notin DOMAIN reg /\ AgeCount(reg) >= AgeLimit THEN reg
              ELSE UpdIn(reg, op.ty, cid, IF op.ty = "U" THEN op.w ELSE op.v, op.x)
            \* a percentile object registers its meter when it is made
            ELSE IF op.v < 0 THEN (IF ck \in DOMAIN cache THEN reg ELSE GetIn(reg, base, cid))
            ELSE Count1(UpdIn(reg, base, cid, op.v, 0), PercId(cid, op.ty, b))
  IN /\ reg' = IF op.via = "line" THEN Parsed(r1) ELSE r1
     /\ cache' = IF perc THEN (ck :> now) @@ cache ELSE cache
     /\ ghost' = IF op.ty \in {"c", "d", "t"} /\ op.v >= 0 THEN GhostAdd(Key(op.ty, cid), op.v)
                 ELSE IF perc /\ op.v >= 0 THEN GhostAdd(Key(base, cid), op.v) ELSE ghost
     /\ now' = now
     /\ Log(op, [err |-> FALSE])

\* a malformed line (the operation carries its text)
DoBad(op) ==
  /\ reg' = Rejected(reg)
  /\ UNCHANGED <<now, cache, ghost>>
  /\ Log(op, [err |-> TRUE])

DoAdv(op) ==
  /\ now' = now + op.dt
  /\ UNCHANGED <<reg, cache, ghost>>
  /\ Log(op, [x |-> 0])

DoGet(op) ==          \* a meter is obtained without being updated
  LET cid == CanonOf[op.id] IN
  /\ reg' = IF op.ty = "A" /\ Key("A", cid) \notin DOMAIN reg /\ AgeCount(reg) >= AgeLimit THEN reg
            ELSE IF op.ty = "g" /\ op.x > 0
                 THEN LET r1 == GetIn(reg, "g", cid) IN [r1 EXCEPT ![Key("g", cid)].ttl = MaxOf(MinTtl, op.x)]
            ELSE GetIn(reg, op.ty, cid)
  /\ UNCHANGED <<now, cache, ghost>>
  /\ Log(op, [x |-> 0])

PubSum(k) == LET m == reg[k] IN IF k \in Live(reg) /\ m.ty \in {"c", "d", "t"} THEN m.s ELSE 0

DoMeasure(op) ==
  LET pub == Published IN
  /\ reg' = Measured(reg, Cardinality(pub))
  /\ ghost' = [k \in DOMAIN ghost |-> IF k \in DOMAIN reg THEN [ghost[k] EXCEPT !.out = @ + PubSum(k)] ELSE ghost[k]]
  /\ UNCHANGED <<now, cache>>
  /\ Log(op, [pub |-> {[n |-> p.id.n, t |-> p.id.t, v |-> p.v, k |-> p.k] : p \in pub}])

Dropped(ks) == [k \in DOMAIN ghost |-> IF k \in ks THEN [ghost[k] EXCEPT !.lost = @ + reg[k].s] ELSE ghost[k]]

DoExpire(op) ==
  LET dead == DOMAIN reg \ Live(reg) IN
  /\ reg' = [k \in Live(reg) |-> reg[k]]
  /\ ghost' = Dropped(dead)
  /\ UNCHANGED <<now, cache>>
  /\ Log(op, [x |-> 0])

CacheTtl == 120 * Sec
DoCacheExpire(op) ==
  LET mine == {k \in DOMAIN cache : k[1] = "cache" /\ k[2] = op.ty}
      old == {k \in mine : now - cache[k] > CacheTtl} IN
  /\ cache' = [k \in DOMAIN cache \ old |-> cache[k]]
  /\ UNCHANGED <<now, reg, ghost>>
  /\ Log(op, [size |-> Cardinality(mine), expired |-> Cardinality(old)])

DoDelete(op) ==
  LET k == Key(op.ty, CanonOf[op.id])
      hit == op.ty \in {"A", "g"} /\ k \in DOMAIN reg IN
  /\ reg' = IF hit THEN [q \in DOMAIN reg \ {k} |-> reg[q]] ELSE reg
  /\ UNCHANGED <<now, cache, ghost>>
  /\ Log(op, [ok |-> hit])

DoDeleteAll(op) ==
  /\ reg' = IF op.ty \in {"A", "g"} THEN [q \in {k \in DOMAIN reg : k[1] # op.ty} |-> reg[q]] ELSE reg
  /\ UNCHANGED <<now, cache, ghost>>
  /\ Log(op, [x |-> 0])

DoList(op) ==
  /\ UNCHANGED <<now, reg, cache, ghost>>
  /\ Log(op, [list |-> Listing, size |-> Cardinality(DOMAIN reg)])

Do(op) ==
  CASE op.op = "upd" -> DoLine(op)
    [] op.op = "bad" -> DoBad(op)
    [] op.op = "adv" -> DoAdv(op)
    [] op.op = "get" -> DoGet(op)
    [] op.op = "measure" -> DoMeasure(op)
    [] op.op = "expire" -> DoExpire(op)
    [] op.op = "cexpire" -> DoCacheExpire(op)
    [] op.op = "del" -> DoDelete(op)
    [] op.op = "delall" -> DoDeleteAll(op)
    [] op.op = "list" -> DoList(op)

\* the registry, its publisher and the server create their status meters at once
InitReg == [k \in {Key("1", c) : c \in Internals \ {SizeId}} \cup {Key("z", SizeId)} |->
              [New(IF k[1] = "1" THEN "c" ELSE "d", Start, MeterTtl) EXCEPT !.ty = k[1]]]
Init == now = Start /\ reg = InitReg /\ cache = <<>> /\ h = <<>> /\ ghost = <<>>

State == [now |-> now, reg |-> reg, cache |-> cache, h |-> h]
Next == /\ Len(h) < Depth
        /\ \E op \in Pick(Ops(State)) : Do(op)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------
(* Moments worth visiting: the last at which a meter or cache entry still lives, and the next *)
Deadlines(st) ==
  {d \in {st.reg[k].up + (IF k[1] = "g" THEN st.reg[k].ttl ELSE Ttl) - st.now + e : k \in UserKeys(st.reg), e \in {0, 1}}
       \cup {st.cache[k] + CacheTtl - st.now + e : k \in DOMAIN st.cache, e \in {0, 1}} : d > 0}

-----------------------------------------------------------------------
(* Properties of the specification itself, checked by TLC on every run *)

\* every amount added to a counter, timer or summary is published once, still pending,
\* or was dropped together with its meter after that had been idle for the ttl
Conserved == \A k \in DOMAIN ghost :
  ghost[k].added = ghost[k].out + ghost[k].lost + (IF k \in DOMAIN reg THEN reg[k].s ELSE 0)

\* a meter updated within the ttl is kept
AgeBound == AgeCount(reg) <= AgeLimit
TypeOK == \A k \in DOMAIN reg : reg[k].up <= now
SumsOK == \A k \in DOMAIN reg :
  /\ reg[k].ty = "c" => reg[k].s >= 0
  /\ reg[k].ty \in {"d", "t"} => (reg[k].n = 0 <=> reg[k].s = 0 /\ reg[k].q = 0 /\ reg[k].mx = 0) \/ reg[k].s = 0
  /\ reg[k].ty = "g" => reg[k].ttl >= MinTtl
GoodState == Conserved /\ AgeBound /\ TypeOK /\ SumsOK

\* nothing a measurement publishes belongs to an idle meter
NoStale == \A p \in Published : p.k[1] = "A" \/ now - reg[p.k].up <= (IF p.k[1] = "g" THEN reg[p.k].ttl ELSE Ttl)

All(S) == S
One(S) == {RandomElement(S)}

\* printing the behaviours (used as a state constraint)
Emitting == IF Len(h) = Depth THEN PrintT("@@" \o ToJson(h)) ELSE TRUE
=======================================================================
