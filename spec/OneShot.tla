---------------------------- MODULE OneShot ----------------------------
(* One-shot compression: what every attempt <<what, argument, return code, whether the result
   is the input>> may end with. pack, unpack: argument: by how much the destination is larger
   than needed; cut, junk: incomplete and random input; flip: one bit of the input changed,
   which may be one that does not matter.                                                  *)
EXTENDS Integers, Sequences, TLC, Json

ASSUME TLCSet(7, JsonDeserialize("hist.json"))
Hist == TLCGet(7)
VARIABLE hi

Allowed(a) ==
  LET ok == a[3] = 0
      right == ok /\ a[4]
  IN CASE a[1] = "pack" -> IF a[2] = 0 THEN ~ok \/ right ELSE IF a[2] < 0 THEN ~ok ELSE right
       [] a[1] = "unpack" -> IF a[2] < 0 THEN ~ok ELSE right
       [] a[1] \in {"cut", "junk"} -> ~ok
       [] OTHER -> ~ok \/ right
Judge(c) == \A i \in 1..Len(c) : Allowed(c[i])

Init == hi \in 1..Len(Hist)
Next == FALSE /\ UNCHANGED hi
Spec == Init /\ [][Next]_hi
Explained == IF TLCEval(Judge(Hist[hi])) THEN PrintT("@@" \o ToString(hi)) ELSE TRUE
=======================================================================
