----------------------------- MODULE Pool -----------------------------
(* The pool of interned strings: one reference per content, where the content of a string
   is its text with every character outside the Atlas set replaced by '_'. Histories of
   the real pool, sequential or concurrent, are explained by an order of these steps.   *)
EXTENDS Text, Json, TLC, FiniteSets

ASSUME TLCSet(7, JsonDeserialize("hist.json"))
(* Sequence of [open, st, ops, pre, res].
   open: whether the pool may hold strings nobody knows of (the process's own pool)
   st: hits, misses, strings, bytes at the beginning
   ops: [k, s]: "intern" of the bytes s, or "stats"
   res: [p, t, u, st]: for intern the reference (as a number), its text then and at the
   very end; for stats the four numbers                                               *)
Hist == TLCGet(7)

VARIABLES hi, pool,     \* set of <<content, reference>>
          nums,         \* hits, misses, strings, bytes
          left          \* operations to come
H == Hist[hi]
Ops == 1..Len(H.ops)
Pre(o) == {H.pre[o][i] : i \in 1..Len(H.pre[o])}

Init == hi \in 1..Len(Hist) /\ pool = {} /\ nums = H.st /\ left = Ops

Intern(o) ==
  LET c == TLCEval(Clean(H.ops[o].s))
      r == H.res[o]
      known == {e \in pool : e[1] = c}
  IN /\ H.ops[o].k = "intern"
     /\ r.t = c /\ r.u = c
     /\ IF known # {} THEN \A e \in known : e[2] = r.p ELSE \A e \in pool : e[2] # r.p
     /\ pool' = pool \cup {<<c, r.p>>}
     /\ \/ /\ known = {}
           /\ nums' = [nums EXCEPT ![2] = @ + 1, ![3] = @ + 1, ![4] = @ + Len(c) + 1]
        \/ /\ known # {} \/ H.open
           /\ nums' = [nums EXCEPT ![1] = @ + 1]
Stats(o) ==
  /\ H.ops[o].k = "stats"
  /\ \A i \in 1..4 : H.res[o].st[i] = nums[i]
  /\ UNCHANGED <<pool, nums>>
Next == /\ \E o \in left : Pre(o) \cap left = {} /\ (Intern(o) \/ Stats(o)) /\ left' = left \ {o}
        /\ UNCHANGED hi
Spec == Init /\ [][Next]_<<hi, pool, nums, left>>

\* one reference per content and one content per reference; the numbers add up
Canonical ==
  /\ \A e, f \in pool : e[1] = f[1] <=> e[2] = f[2]
  /\ nums[1] + nums[2] - H.st[1] - H.st[2] = Cardinality({o \in Ops \ left : H.ops[o].k = "intern"})
  /\ ~H.open => nums[3] - H.st[3] = Cardinality(pool)
Explained == IF left = {} THEN PrintT("@@" \o ToString(hi)) ELSE TRUE
=======================================================================
