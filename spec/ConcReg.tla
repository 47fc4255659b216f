---------------------------- MODULE ConcReg ----------------------------
(* The registry, the percentile caches and the common tags used by several threads. An
   operation is a short program of steps, each of which happens at one instant: finding or
   creating a meter, applying an update to the meter found, measuring one meter, deciding
   the expiration of one meter, removing by id, listing. Meters are objects with an identity
   of their own: a meter that was removed from the registry lives on as long as somebody
   holds it, and a meter somebody holds is never expired.

   Free: TLC explores all programs of a set and checks the invariants below. Otherwise every
   recorded history of the real code must be explained by some order of these steps.      *)
EXTENDS Meters, Json, TLC

CONSTANT Free
ASSUME TLCSet(7, JsonDeserialize("hist.json"))
(* Sequence of [ttl, limit, types, setup, ops, pre, res, f]: ttl in ticks; types: those that occur;
   setup: operations that were performed one after another before
   ops: [k, ty, n, v, x, w]; res: [pub, p, b, tags]                                       *)
Hist == TLCGet(7)

VARIABLES hi, now, objs, reg, cache, tags,
          pr,        \* op -> steps it still has to take
          held,      \* op -> objects it holds
          got        \* op -> what it has seen
vars == <<hi, now, objs, reg, cache, tags, pr, held, got>>

H == Hist[hi]
NSetup == Len(H.setup)
Ops == 1..(NSetup + Len(H.ops))
Op(o) == IF o <= NSetup THEN H.setup[o] ELSE H.ops[o - NSetup]
Pre(o) == IF o <= NSetup THEN 1..(o - 1)
          ELSE (1..NSetup) \cup {NSetup + H.pre[o - NSetup][i] : i \in 1..Len(H.pre[o - NSetup])}
Checked(o) == ~Free /\ o > NSetup
Res(o) == H.res[o - NSetup]
AllPub(o) == {<<Res(o).pub[i][1], Res(o).pub[i][2], Res(o).pub[i][3], Res(o).pub[i][4]>> : i \in 1..Len(Res(o).pub)}
(* The four fields of a timer or summary are not updated at one instant: a history is explained
   for each of them on its own (H.f), and all four have to be published, or none.             *)
Fielded == {op.n : op \in {q \in {H.setup[i] : i \in 1..NSetup} \cup {H.ops[i] : i \in 1..Len(H.ops)} : q.ty \in {"t", "d", "T", "D"}}}
FStats(f) == CASE f = "n" -> {"count"} [] f = "s" -> {"totalTime", "totalAmount"} [] f = "q" -> {"totalOfSquares"} [] OTHER -> {"max"}
IsField(p) == p[1] \in Fielded /\ p[3] = ""
PubOf(o) == TLCEval({p \in AllPub(o) : ~IsField(p) \/ p[2] \in FStats(H.f)})
Complete(o) == \A n \in Fielded : LET have == {p[2] : p \in {q \in AllPub(o) : q[1] = n /\ q[3] = ""}}
                                  IN have = {} \/ have = {"count", "totalTime", "totalOfSquares", "max"}
                                       \/ have = {"count", "totalAmount", "totalOfSquares", "max"}
Types == {H.types[i] : i \in 1..Len(H.types)}
Start == 2000000      \* seconds at time zero

WInt(w) == w[3] * 65536 + w[4]
Odd == 0 - 77777777
Value(v) == IF "u1" \in DOMAIN v THEN IF "d" \in DOMAIN v THEN (IF v.u1 % v.d = 0 THEN v.u1 \div v.d ELSE Odd) ELSE v.u1
            ELSE IF "u2" \in DOMAIN v THEN v.u2
            ELSE IF "w" \in DOMAIN v THEN WInt(v.w)
            ELSE IF v.n % v.d # 0 THEN Odd
            ELSE (v.n \div v.d) + (IF "b" \in DOMAIN v THEN v.b * Start ELSE 0)
Amount(ty, v) == IF ty = "U" THEN WOfInt(v) ELSE v
Shows(ob) == {<<ob.n, IF ob.pt = "" THEN p[2] ELSE "percentile", ob.pt, Value(p[3])>> : p \in Pub(ob.m, now)}

-----------------------------------------------------------------------
(* the programs of the operations *)
Updating(ty, n, pt, v, x) ==
  <<[s |-> "get", ty |-> ty, n |-> n, pt |-> pt, x |-> x]>> \o
  (IF ty = "g" /\ x > 0 THEN <<[s |-> "ttl", x |-> x]>> ELSE <<>>) \o
  <<[s |-> "apply", v |-> v, x |-> x, todo |-> IF ty = "A" THEN {"value"} ELSE {"value", "touch"}], [s |-> "release"]>>
Base(c) == IF c = "T" THEN "t" ELSE "d"
Program(op) ==
  CASE op.k = "upd" -> Updating(op.ty, op.n, "", op.v, op.x)
    [] op.k = "get" -> <<[s |-> "get", ty |-> op.ty, n |-> op.n, pt |-> "", x |-> op.x]>> \o
                       (IF op.ty = "g" /\ op.x > 0 THEN <<[s |-> "ttl", x |-> op.x]>> ELSE <<>>) \o <<[s |-> "release"]>>
    [] op.k = "cache" -> <<[s |-> "cget", c |-> op.ty, n |-> op.n, w |-> op.w]>> \o Updating(Base(op.ty), op.n, "", op.v, 0)
                         \o Updating("c", op.n, Tag4(op.ty, IndexOf(WOfInt(op.v))), 1, 0)
    [] op.k = "measure" -> <<[s |-> "measure", types |-> Types, todo |-> {}], [s |-> "published"]>>
    [] op.k = "expire" -> <<[s |-> "expire", types |-> Types \ {"A"}, todo |-> {}]>>
    [] op.k = "size" -> <<[s |-> "size", types |-> Types, sum |-> 0]>>
    [] op.k = "list" -> <<[s |-> "snap", ty |-> op.ty], [s |-> "read", todo |-> {}], [s |-> "release"]>>
    [] op.k = "sleep" -> <<[s |-> "sleep", x |-> op.x], [s |-> "wake", x |-> 0]>>
    [] op.k = "adv" -> <<[s |-> "wake", x |-> op.x]>>
    [] OTHER -> <<[s |-> op.k]>>

Init ==
  /\ hi \in 1..Len(Hist)
  /\ now = 0 /\ objs = <<>> /\ reg = {} /\ cache = {} /\ tags = {}
  /\ pr = [o \in Ops |-> TLCEval(Program(Op(o)))]
  /\ held = [o \in Ops |-> {}]
  /\ got = [o \in Ops |-> {}]

Done(o) == pr[o] = <<>>
Pop(o) == [pr EXCEPT ![o] = Tail(@)]
Put(o, st) == [pr EXCEPT ![o] = <<st>> \o Tail(@)]

(* reg: set of objects (numbers) that are registered; their keys are unique *)
Key(i) == <<objs[i].ty, objs[i].n, objs[i].pt>>
Find(ty, n, pt) == {i \in reg : Key(i) = <<ty, n, pt>>}
Count(ty) == Cardinality({i \in reg : objs[i].ty = ty})
InUse(i) == \E o \in Ops : i \in held[o]

-----------------------------------------------------------------------
Named(o) == ~Free /\ o > NSetup /\ Op(o).k \in {"upd", "get"}       \* reports the identity of its meter
Fresh(ty, x) == LET m == New(ty, now, H.ttl) IN IF ty = "g" /\ x > 0 THEN [m EXCEPT !.ttl = MaxOf(MinTtl, x)] ELSE m
Get(o, st) ==
  LET f == Find(st.ty, st.n, st.pt)
      p == IF Named(o) THEN Res(o).p ELSE 0
  IN IF f # {}
     THEN LET i == CHOOSE i \in f : TRUE IN
          /\ p # 0 => objs[i].p \in {0, p} /\ \A j \in 1..Len(objs) : j # i => objs[j].p # p
          /\ objs' = IF p # 0 THEN [objs EXCEPT ![i].p = p] ELSE objs
          /\ held' = [held EXCEPT ![o] = {i}]
          /\ UNCHANGED reg
     ELSE LET i == Len(objs) + 1 IN
          /\ p # 0 => \A j \in 1..Len(objs) : objs[j].p # p
          /\ objs' = Append(objs, [ty |-> st.ty, n |-> st.n, pt |-> st.pt, p |-> p, m |-> Fresh(st.ty, st.x)])
          /\ held' = [held EXCEPT ![o] = {i}]
          /\ reg' = IF st.ty = "A" /\ Count("A") >= H.limit THEN reg ELSE reg \cup {i}

Held(o) == CHOOSE i \in held[o] : TRUE
(* An update changes the value and makes the meter current, at two instants: somebody who measures
   an expired meter in between may find it current again already, and publishes what it held, which
   was not published before and is not published again. A gauge, whose value is replaced, changes
   the value first. *)
Apply(o, st, f) == LET i == Held(o) IN
  /\ (objs[i].ty = "g" /\ f = "touch") => "value" \notin st.todo
  /\ objs' = [objs EXCEPT ![i].m = IF f = "touch" THEN [@ EXCEPT !.up = now]
                                   ELSE [Upd(@, now, Amount(objs[i].ty, st.v), IF objs[i].ty = "X" THEN st.x ELSE 0) EXCEPT !.up = objs[i].m.up]]

\* (whoever measures at that time may keep a meter alive meanwhile)
Looking == \E q \in Ops : ~Done(q) /\ Head(pr[q]).s = "measure" /\ \A r \in Pre(q) : Done(r)

Step(o) ==
  LET st == Head(pr[o]) IN
  CASE st.s = "get" -> Get(o, st) /\ pr' = Pop(o) /\ UNCHANGED <<now, cache, tags, got>>
    [] st.s = "ttl" -> /\ objs' = [objs EXCEPT ![Held(o)].m.ttl = MaxOf(MinTtl, st.x)]
                       /\ pr' = Pop(o) /\ UNCHANGED <<now, reg, cache, tags, held, got>>
    [] st.s = "apply" ->
         \E f \in st.todo :
         /\ Apply(o, st, f)
         /\ pr' = IF st.todo = {f} THEN Pop(o) ELSE Put(o, [st EXCEPT !.todo = @ \ {f}])
         /\ UNCHANGED <<now, reg, cache, tags, held, got>>
    [] st.s = "release" -> held' = [held EXCEPT ![o] = {}] /\ pr' = Pop(o) /\ UNCHANGED <<now, objs, reg, cache, tags, got>>
    [] st.s = "cget" ->    \* (two caches: the one of the server and the one of the driver, by w)
         LET e == {c \in cache : c.c = st.c /\ c.n = st.n /\ c.w = st.w}
             f == Find(Base(st.c), st.n, "")
         IN /\ cache' = (cache \ e) \cup {[c |-> st.c, n |-> st.n, w |-> st.w, up |-> now]}
            /\ IF e = {} /\ f = {}
               THEN /\ objs' = Append(objs, [ty |-> Base(st.c), n |-> st.n, pt |-> "", p |-> 0, m |-> Fresh(Base(st.c), 0)])
                    /\ reg' = reg \cup {Len(objs) + 1}
               ELSE UNCHANGED <<objs, reg>>
            /\ pr' = Pop(o) /\ UNCHANGED <<now, tags, held, got>>
    [] st.s = "cexpire" ->
         LET old == {c \in cache : c.c = Op(o).ty /\ c.w = Op(o).w /\ now - c.up > 120 * Sec}
         IN /\ Checked(o) => Res(o).b = Cardinality(old)
            /\ cache' = cache \ old
            /\ pr' = Pop(o) /\ UNCHANGED <<now, objs, reg, tags, held, got>>
    [] st.s = "del" ->
         LET f == IF Op(o).ty \in {"A", "g"} THEN Find(Op(o).ty, Op(o).n, "") ELSE {}
         IN /\ Checked(o) => Res(o).b = (IF f = {} THEN 0 ELSE 1)
            /\ reg' = reg \ f
            /\ pr' = Pop(o) /\ UNCHANGED <<now, objs, cache, tags, held, got>>
    [] st.s = "delall" ->
         /\ reg' = {i \in reg : ~(Op(o).ty \in {"A", "g"} /\ objs[i].ty = Op(o).ty)}
         /\ pr' = Pop(o) /\ UNCHANGED <<now, objs, cache, tags, held, got>>
    [] st.s = "snap" ->
         LET all == {i \in reg : objs[i].ty = st.ty}
         IN /\ held' = [held EXCEPT ![o] = all]
            /\ pr' = [pr EXCEPT ![o] = <<[pr[o][2] EXCEPT !.todo = all]>> \o Tail(Tail(@))]
            /\ UNCHANGED <<now, objs, reg, cache, tags, got>>
    [] st.s = "read" ->
         IF st.todo = {}
         THEN /\ Checked(o) => got[o] = PubOf(o)
              /\ pr' = Pop(o) /\ UNCHANGED <<now, objs, reg, cache, tags, held, got>>
         ELSE \E i \in st.todo :
              LET m == objs[i].m
                  v == IF m.ty = "g" THEN (IF m.set THEN m.v ELSE Odd) ELSE (IF m.has THEN m.last \div Sec ELSE 0 - 1)
              IN /\ Checked(o) => <<objs[i].n, "", "", v>> \in PubOf(o)
                 /\ got' = [got EXCEPT ![o] = @ \cup {<<objs[i].n, "", "", v>>}]
                 /\ pr' = Put(o, [st EXCEPT !.todo = @ \ {i}])
                 /\ UNCHANGED <<now, objs, reg, cache, tags, held>>
    [] st.s = "measure" ->
         IF st.todo # {}
         THEN \E i \in st.todo :
              LET m == objs[i].m
                  gone == Expired(m, now, H.ttl)
                  field == Checked(o) /\ m.ty \in {"t", "d"}
                  cur == CASE H.f = "n" -> m.n [] H.f = "s" -> m.s [] H.f = "q" -> m.q [] OTHER -> m.mx
                  mine == {p \in PubOf(o) : p[1] = objs[i].n /\ p[3] = ""}
                  quiet == gone \/ (field /\ mine = {})
                  see == IF quiet THEN {} ELSE IF field THEN {<<objs[i].n, p[2], "", cur>> : p \in mine} ELSE TLCEval(Shows(objs[i]))
              IN /\ Checked(o) => see \subseteq PubOf(o)
                 /\ (field /\ ~gone /\ H.f = "n") => (quiet <=> cur = 0)
                 /\ got' = [got EXCEPT ![o] = @ \cup see]
                 /\ objs' = IF quiet THEN objs
                            ELSE IF field
                            THEN CASE H.f = "n" -> [objs EXCEPT ![i].m.n = 0] [] H.f = "s" -> [objs EXCEPT ![i].m.s = 0]
                                   [] H.f = "q" -> [objs EXCEPT ![i].m.q = 0] [] OTHER -> [objs EXCEPT ![i].m.mx = 0]
                            ELSE [objs EXCEPT ![i].m = After(@)]
                 /\ pr' = Put(o, [st EXCEPT !.todo = @ \ {i}])
                 /\ UNCHANGED <<now, reg, cache, tags, held>>
         ELSE IF st.types # {}
         THEN \E ty \in st.types :
              /\ pr' = Put(o, [st EXCEPT !.types = @ \ {ty}, !.todo = {i \in reg : objs[i].ty = ty}])
              /\ UNCHANGED <<now, objs, reg, cache, tags, held, got>>
         ELSE pr' = Pop(o) /\ UNCHANGED <<now, objs, reg, cache, tags, held, got>>
    [] st.s = "published" ->
         /\ Checked(o) => got[o] = PubOf(o) /\ Complete(o)
         /\ pr' = Pop(o) /\ UNCHANGED <<now, objs, reg, cache, tags, held, got>>
    [] st.s = "expire" ->
         IF st.todo # {}
         THEN \E i \in st.todo :
              /\ LET gone == Expired(objs[i].m, now, H.ttl) /\ ~InUse(i) IN
                 \/ gone /\ reg' = reg \ {i}
                 \/ (~gone \/ Looking) /\ reg' = reg
              /\ pr' = Put(o, [st EXCEPT !.todo = @ \ {i}])
              /\ UNCHANGED <<now, objs, cache, tags, held, got>>
         ELSE IF st.types # {}
         THEN \E ty \in st.types :
              /\ pr' = Put(o, [st EXCEPT !.types = @ \ {ty}, !.todo = {i \in reg : objs[i].ty = ty}])
              /\ UNCHANGED <<now, objs, reg, cache, tags, held, got>>
         ELSE pr' = Pop(o) /\ UNCHANGED <<now, objs, reg, cache, tags, held, got>>
    [] st.s = "size" ->
         IF st.types = {}
         THEN /\ Checked(o) => Res(o).b = st.sum
              /\ pr' = Pop(o) /\ UNCHANGED <<now, objs, reg, cache, tags, held, got>>
         ELSE \E ty \in st.types :
              /\ pr' = Put(o, [st EXCEPT !.types = @ \ {ty}, !.sum = @ + Count(ty)])
              /\ UNCHANGED <<now, objs, reg, cache, tags, held, got>>
    [] st.s = "sleep" ->
         /\ pr' = [pr EXCEPT ![o] = <<[s |-> "wake", x |-> now + st.x]>>]
         /\ UNCHANGED <<now, objs, reg, cache, tags, held, got>>
    [] st.s = "wake" ->
         /\ now' = IF Op(o).k = "adv" THEN now + st.x ELSE MaxOf(now, st.x)
         /\ pr' = Pop(o) /\ UNCHANGED <<objs, reg, cache, tags, held, got>>
    [] st.s = "ctag" ->
         /\ tags' = {t \in tags : t[1] # Op(o).ty} \cup (IF Op(o).n = "" THEN {} ELSE {<<Op(o).ty, Op(o).n>>})
         /\ pr' = Pop(o) /\ UNCHANGED <<now, objs, reg, cache, held, got>>
    [] st.s = "ctags" ->
         /\ Checked(o) => tags = {<<Res(o).tags[i][1], Res(o).tags[i][2]>> : i \in 1..Len(Res(o).tags)}
         /\ pr' = Pop(o) /\ UNCHANGED <<now, objs, reg, cache, tags, held, got>>
    [] OTHER -> FALSE

\* (operations of the setup come before all others, one after another)
Next == /\ \E o \in Ops : ~Done(o) /\ (\A q \in Pre(o) : Done(q)) /\ Step(o)
        /\ UNCHANGED hi
Spec == Init /\ [][Next]_vars

Explained == IF \A o \in Ops : Done(o) THEN PrintT("@@" \o ToString(hi)) ELSE TRUE

-----------------------------------------------------------------------
(* What every order of the steps keeps *)
OnePerId == \A i, j \in reg : i # j => Key(i) # Key(j)
\* no update goes to a meter that the registry has dropped by itself
NoStray == \A o \in Ops : \A i \in held[o] : objs[i].ty \notin {"A", "g"} => i \in reg
Limited == Count("A") <= H.limit
OneEntry == \A c, d \in cache : c.c = d.c /\ c.n = d.n /\ c.w = d.w => c = d
Consistent == OnePerId /\ NoStray /\ Limited /\ OneEntry
=======================================================================
