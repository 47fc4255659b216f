----------------------------- MODULE Tags -----------------------------
(* Tag sets: each is a map from keys (numbered in their order) to values. A set that was moved
   from holds something valid but unknown: what was added to it afterwards is known. TLC
   generates histories with the contents of all sets after every operation.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,          \* sets
          NKeys,
          Spans,      \* sequence of <<lo, hi, step>>: keys added by one operation
          Vals, Depth, Weighted
VARIABLES sets,       \* 1..N -> [known, m]
          ops, want, n
vars == <<sets, ops, want, n>>

Empty == [known |-> TRUE, m |-> <<>>]
Unknown == [known |-> FALSE, m |-> <<>>]
Keys(m) == DOMAIN m
Put(m, k, v) == [x \in Keys(m) \cup {k} |-> IF x = k THEN v ELSE m[x]]
PutAll(m, o) == [x \in Keys(m) \cup Keys(o) |-> IF x \in Keys(o) THEN o[x] ELSE m[x]]
Span(sp) == IF sp[3] > 0 THEN {k \in 1..NKeys : k >= sp[1] /\ k <= sp[2] /\ (k - sp[1]) % sp[3] = 0}
            ELSE {k \in 1..NKeys : k <= sp[1] /\ k >= sp[2] /\ (sp[1] - k) % (0 - sp[3]) = 0}
Lit3 == [x \in 1..2 |-> <<2, 3>>[x]]
Lit9 == [x \in 1..9 |-> <<2, 5, 3, 4, 9, 6, 7, 8, 2>>[x]]

Sorted(m) == LET RECURSIVE S(_)
                 S(k) == IF k > NKeys THEN <<>> ELSE (IF k \in Keys(m) THEN <<<<k, m[k]>>>> ELSE <<>>) \o S(k + 1)
             IN S(1)

Did(op, s) == /\ sets' = s /\ n' = n + 1 /\ ops' = Append(ops, op)
              /\ want' = Append(want, [i \in 1..N |-> [known |-> s[i].known, m |-> Sorted(s[i].m)]])

New(a) == Did(<<"new", a>>, [sets EXCEPT ![a] = Empty])
Lit(a, k) == Did(<<"lit", a, k>>, [sets EXCEPT ![a] = [known |-> TRUE, m |-> IF k = 3 THEN Lit3 ELSE Lit9]])
Add(a, sp, v) == Did(<<"add", a, sp[1], sp[2], sp[3], v>>,
                     [sets EXCEPT ![a].m = PutAll(@, [x \in Span(sp) |-> v])])
AddAll(a, b) == Did(<<"all", a, b>>, [sets EXCEPT ![a] = [known |-> @.known /\ sets[b].known,
                      m |-> IF sets[b].known \/ a = b THEN PutAll(@.m, sets[b].m)
                            ELSE LET sure == Keys(sets[b].m) IN [x \in sure |-> sets[b].m[x]]]])   \* the rest may be overwritten
Copy(a, b) == Did(<<"copy", a, b>>, [sets EXCEPT ![a] = sets[b]])
Moved(a, b) == IF a = b THEN sets ELSE [sets EXCEPT ![a] = sets[b], ![b] = Unknown]
MoveC(a, b) == a # b /\ Did(<<"movec", a, b>>, Moved(a, b))
MoveA(a, b) == Did(<<"movea", a, b>>, Moved(a, b))
CopyA(a, b) == Did(<<"copya", a, b>>, [sets EXCEPT ![a] = sets[b]])

Init == sets = [i \in 1..N |-> Empty] /\ ops = <<>> /\ want = <<>> /\ n = 0
All(a, b) ==
  \/ New(a)
  \/ Lit(a, 3) \/ Lit(a, 9)
  \/ \E i \in 1..Len(Spans), v \in Vals : Add(a, Spans[i], v)
  \/ AddAll(a, b) \/ Copy(a, b) \/ MoveC(a, b) \/ MoveA(a, b) \/ CopyA(a, b)
Next == n < Depth /\
  IF Weighted
  THEN LET a == RandomElement(1..N)  b == RandomElement(1..N)  r == RandomElement(1..20)  v == RandomElement(Vals)
           lo == RandomElement(1..NKeys)  hi == RandomElement(1..NKeys)
       IN IF r <= 8 THEN Add(a, <<lo, hi, IF hi >= lo THEN RandomElement(1..3) ELSE 0 - RandomElement(1..3)>>, v)
          ELSE IF r <= 10 THEN AddAll(a, b)
          ELSE IF r <= 12 THEN Copy(a, b)
          ELSE IF r <= 14 /\ a # b THEN MoveC(a, b)
          ELSE IF r <= 17 THEN MoveA(a, b)
          ELSE IF r = 18 THEN CopyA(a, b)
          ELSE IF r = 19 THEN New(a) ELSE Lit(a, IF v = 1 THEN 3 ELSE 9)
  ELSE \E a, b \in 1..N : All(a, b)
Spec == Init /\ [][Next]_vars

\* an operation changes only the set it is performed on, and the one that is moved from
Independent == n = 0 \/
  LET op == ops[n]
      touched == {op[2]} \cup (IF op[1] \in {"movec", "movea"} THEN {op[3]} ELSE {})
  IN n = 1 \/ \A i \in (1..N) \ touched : want[n][i] = want[n - 1][i]
Emit == IF n = Depth THEN PrintT("@@" \o ToJson([ops |-> ops, want |-> want])) ELSE TRUE
=======================================================================
