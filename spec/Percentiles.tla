-------------------------- MODULE Percentiles --------------------------
(* Percentile buckets and estimates: judges what the code did for an amount, or for counts of
   the buckets and a list of percentiles.                                                   *)
EXTENDS Buckets, Integers, Sequences, FiniteSets

ASSUME TLCSet(7, JsonDeserialize("hist.json"))
(* [k |-> "idx", neg, v, i, b]: the amount (magnitude), its bucket and the bound of it
   [k |-> "pct", counts, p, r]: counts: <<bucket, count>>s; p: percentiles in eighths, ascending;
   r: the estimates, each as the whole numbers next below and above it (nothing: not a number) *)
Hist == TLCGet(7)
VARIABLE hi

Upper(i) == Bounds[i + 1]
Lower(i) == IF i = 0 THEN WZero ELSE Bounds[i]

Index(neg, v) == IF neg THEN 0 ELSE IndexOf(v)

RECURSIVE SumOf(_, _, _)
\* counts in buckets up to i
SumOf(cs, i, n) == IF n = 0 THEN 0 ELSE SumOf(cs, i, n - 1) + (IF cs[n][1] <= i THEN cs[n][2] ELSE 0)
Upto(cs, i) == SumOf(cs, i, Len(cs))
\* the bucket that holds a percentile: the first one with which so many of all are reached
Holder(cs, p) ==
  LET used == {cs[n][1] : n \in {m \in 1..Len(cs) : cs[m][2] > 0}}
      total == Upto(cs, NumBuckets)
      reach == {i \in used : 800 * Upto(cs, i) >= p * total}
  IN CHOOSE i \in reach : \A j \in reach : i <= j

Judge(c) ==
  IF c.k = "idx" THEN c.i = Index(c.neg, c.v) /\ c.b = Upper(c.i)
  ELSE /\ Len(c.r) = Len(c.p)
       /\ \A n \in 1..Len(c.p) : Len(c.r[n]) = 2
       /\ \A n \in 1..Len(c.p) : LET i == TLCEval(Holder(c.counts, c.p[n]))
                                 IN WLe(Lower(i), c.r[n][2]) /\ WLe(c.r[n][1], Upper(i))
       /\ \A n \in 2..Len(c.p) : WLe(c.r[n - 1][1], c.r[n][2])

(* The scheme itself: 276 buckets with ascending bounds; every bucket is a range of amounts that
   follow those of the one before, none of them above its bound.                            *)
One == WOfInt(1)
ASSUME NumBuckets = 276
ASSUME \A i \in 1..(NumBuckets - 1) : WLt(Bounds[i], Bounds[i + 1])
ASSUME \A i \in 0..(NumBuckets - 1) : LET u == LargestOf(i) IN
         /\ WLe(u, Bounds[i + 1])
         /\ IndexOf(u) = i
         /\ i < NumBuckets - 1 => IndexOf(WAdd(u, One)) = i + 1

Init == hi \in 1..Len(Hist)
Next == FALSE /\ UNCHANGED hi
Spec == Init /\ [][Next]_hi
Explained == IF TLCEval(Judge(Hist[hi])) THEN PrintT("@@" \o ToString(hi)) ELSE TRUE
========================================================================
