----------------------------- MODULE Conc -----------------------------
(* One meter used by several threads. Updates and measurements of counters, gauges and
   monotonic sources are single steps on the meter of Meters.tla; those of timers and
   summaries change the count, the total, the squares and the maximum one by one, in any
   order, so that a measurement may see part of an update and the next one the rest, but
   nothing is lost and nothing is seen twice.

   The module is used in two ways. Free: TLC runs all programs of a set on the
   specification and checks Conserved. Otherwise: every recorded history of the real
   meters (results of the operations and which ended before which began) must be
   explained by some order of such steps; a history that can be is printed.           *)
EXTENDS Meters, Json, TLC

CONSTANTS Free       \* no results to explain
(* Hist: sequence of [ty, f, setup, ops, pre, res], read once *)
ASSUME TLCSet(7, JsonDeserialize("hist.json"))
Hist == TLCGet(7)
(* f: the one field of a timer or summary to explain (as their order is open, a history is
   explained when each field is), or ""
   setup, ops: sequences of [k, v, x]; k: "upd" or "measure"
   pre: for every operation those that ended before it began
   res: for every measurement the sequence of published [statistic, value]            *)

VARIABLES hi,        \* which history
          obj,       \* the meter
          todo,      \* op -> fields it has still to touch
          book       \* [added, taken]: what was added and what was published, by field

Fields(h) == IF h.ty \in {"d", "t"} THEN (IF h.f = "" THEN {"n", "s", "q", "mx"} ELSE {h.f}) ELSE {"all"}
WInt(w) == w[3] * 65536 + w[4]
Value(v) == IF "u1" \in DOMAIN v THEN IF "d" \in DOMAIN v THEN (IF v.u1 % v.d = 0 THEN v.u1 \div v.d ELSE 0 - 77777777) ELSE v.u1
            ELSE IF "u2" \in DOMAIN v THEN v.u2
            ELSE IF "w" \in DOMAIN v THEN WInt(v.w)
            ELSE IF v.d = 1 THEN v.n ELSE 0 - 77777777
Shows(m) == {<<p[2], Value(p[3])>> : p \in Pub(m, 0)}
SetOf(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
Amount(ty, v) == IF ty = "U" THEN WOfInt(v) ELSE v

RECURSIVE Prepared(_, _, _)
Prepared(m, ops, k) ==
  IF k > Len(ops) THEN m
  ELSE Prepared(IF ops[k].k = "upd" THEN Upd(m, 0, Amount(m.ty, ops[k].v), ops[k].x) ELSE After(m), ops, k + 1)

H == Hist[hi]
Ops == 1..Len(H.ops)
Zero == [n |-> 0, s |-> 0, q |-> 0]
Pre(o) == {H.pre[o][i] : i \in 1..Len(H.pre[o])}
Init ==
  /\ hi \in 1..Len(Hist)
  /\ obj = Prepared(New(H.ty, 0, 0), H.setup, 1)
  /\ todo = [o \in Ops |-> Fields(H)]
  /\ book = [added |-> Zero, taken |-> Zero, max |-> 0, out |-> 0, sets |-> {}, base |-> obj]

Begun(o) == \A q \in Pre(o) : todo[q] = {}
Done(o) == todo[o] = {}
StatOf(ty, f) == CASE f = "n" -> "count" [] f = "s" -> IF ty = "t" THEN "totalTime" ELSE "totalAmount"
                   [] f = "q" -> "totalOfSquares" [] OTHER -> "max"
Seen(o) == SetOf(H.res[o])

Update(o, f) ==
  LET v == H.ops[o].v  x == H.ops[o].x
      counted == v >= 0
      inc == CASE f = "n" -> 1 [] f = "s" -> v [] f = "q" -> v * v [] OTHER -> 0
  IN /\ H.ops[o].k = "upd"
     /\ IF f = "all" THEN obj' = Upd(obj, 0, Amount(H.ty, v), x)
        ELSE IF ~counted THEN obj' = obj
        ELSE IF f = "mx" THEN obj' = [obj EXCEPT !.mx = MaxOf(@, v)]
        ELSE obj' = CASE f = "n" -> [obj EXCEPT !.n = @ + inc] [] f = "s" -> [obj EXCEPT !.s = @ + inc] [] OTHER -> [obj EXCEPT !.q = @ + inc]
     /\ book' = IF f = "all" THEN [book EXCEPT !.added.s = IF counted THEN @ + v ELSE @, !.max = MaxOf(@, v), !.sets = @ \cup {v}]
                ELSE IF ~counted THEN book
                ELSE IF f = "mx" THEN [book EXCEPT !.max = MaxOf(@, v)]
                ELSE CASE f = "n" -> [book EXCEPT !.added.n = @ + inc] [] f = "s" -> [book EXCEPT !.added.s = @ + inc] [] OTHER -> [book EXCEPT !.added.q = @ + inc]
     /\ todo' = [todo EXCEPT ![o] = @ \ {f}]

\* of a meter whose measurement is one step
Whole(o) ==
  /\ H.ops[o].k = "measure"
  /\ Free \/ Shows(obj) = Seen(o)
  /\ obj' = After(obj)
  /\ LET got == {p[2] : p \in Shows(obj)}
         v == IF got = {} THEN 0 ELSE CHOOSE z \in got : TRUE
     IN book' = [book EXCEPT !.taken.s = @ + (IF H.ty \in {"c", "C", "U"} THEN v ELSE 0), !.out = IF got = {} THEN @ ELSE MaxOf(@, v)]
  /\ todo' = [todo EXCEPT ![o] = {}]

\* of a timer or summary: the fields one by one. Nothing may be published only while there is no
\* count, and then whatever was taken beforehand must have been nothing.
Part(o, f) ==
  LET cur == CASE f = "n" -> obj.n [] f = "s" -> obj.s [] f = "q" -> obj.q [] OTHER -> obj.mx
      quiet == Seen(o) = {}
      left == todo[o] \ {f}
  IN /\ H.ops[o].k = "measure"
     /\ IF Free
        THEN f = "n" \/ "n" \notin todo[o]       \* the count first
        ELSE IF quiet THEN (f = "n" => cur = 0)
        ELSE <<StatOf(H.ty, f), cur>> \in Seen(o) /\ (f = "n" => cur # 0)
     /\ IF (IF Free THEN f = "n" /\ cur = 0 ELSE quiet)
        THEN /\ todo' = [todo EXCEPT ![o] = IF Free THEN {} ELSE left]
             /\ UNCHANGED <<obj, book>>
        ELSE /\ obj' = CASE f = "n" -> [obj EXCEPT !.n = 0] [] f = "s" -> [obj EXCEPT !.s = 0] [] f = "q" -> [obj EXCEPT !.q = 0]
                         [] OTHER -> [obj EXCEPT !.mx = 0]
             /\ book' = CASE f = "n" -> [book EXCEPT !.taken.n = @ + cur] [] f = "s" -> [book EXCEPT !.taken.s = @ + cur]
                          [] f = "q" -> [book EXCEPT !.taken.q = @ + cur] [] OTHER -> [book EXCEPT !.out = MaxOf(@, cur)]
             /\ todo' = [todo EXCEPT ![o] = left]

Next ==
  /\ \E o \in Ops : ~Done(o) /\ Begun(o) /\
       \/ \E f \in todo[o] : Update(o, f)
       \/ "all" \in todo[o] /\ Whole(o)
       \/ "all" \notin todo[o] /\ \E f \in todo[o] : Part(o, f)
  /\ UNCHANGED hi
Spec == Init /\ [][Next]_<<hi, obj, todo, book>>

\* a measurement that published has published the four statistics, or the one
Complete == \A o \in Ops : H.ops[o].k = "measure" /\ H.ty \in {"d", "t"} =>
              Seen(o) = {} \/ {p[1] : p \in Seen(o)} = {"count", StatOf(H.ty, "s"), "totalOfSquares", "max"}
Explained == IF \A o \in Ops : Done(o) THEN (IF Complete THEN PrintT("@@" \o ToString(hi)) ELSE TRUE) ELSE TRUE

(* What every order of the steps keeps *)
b0 == book.base
Updates == {o \in Ops : H.ops[o].k = "upd"}
Growing == /\ \A o, q \in Updates : o # q => (o \in Pre(q) /\ H.ops[o].v <= H.ops[q].v) \/ (q \in Pre(o) /\ H.ops[q].v <= H.ops[o].v)
           /\ \A o \in Updates : H.ops[o].v >= (IF H.ty = "U" THEN WInt(b0.v) ELSE b0.v)
Conserved ==
  /\ H.ty = "c" => book.taken.s + obj.s = book.added.s + b0.s
  /\ H.ty \in {"d", "t"} => /\ book.taken.n + obj.n = book.added.n + b0.n
                            /\ book.taken.s + obj.s = book.added.s + b0.s
                            /\ book.taken.q + obj.q = book.added.q + b0.q
                            /\ MaxOf(book.out, obj.mx) = MaxOf(book.max, b0.mx)
  /\ H.ty = "m" /\ book.sets # {} /\ (\A v \in book.sets : v >= 0) => MaxOf(book.out, IF obj.set THEN obj.v ELSE 0) = MaxOf(book.max, IF b0.set THEN b0.v ELSE 0)
  \* deltas telescope while the source grows
  /\ H.ty \in {"C", "U"} /\ b0.hasp /\ Growing => book.taken.s = (IF H.ty = "U" THEN WInt(obj.p) - WInt(b0.p) ELSE obj.p - b0.p)
  /\ H.ty = "g" /\ obj.set => obj.v \in book.sets \cup {b0.v}
Consistent == ~Free \/ Conserved
=======================================================================
