--------------------------- MODULE Buckets ---------------------------
(* The percentile bucket scheme: bounds 1, 2, 3, 4, then for every power of
   four 4^k (k >= 1) bounds in steps of a third of it (rounded down), up to the
   next power of four, and the largest 64-bit integer as the last bound. *)
EXTENDS Wide, TLC, Json

Pow4 == LET RECURSIVE P(_, _)
            P(k, acc) == IF k > 31 THEN acc ELSE P(k + 1, Append(acc, WMulS(acc[k], 4)))
        IN TLCEval(P(1, <<WOfInt(1)>>))              \* Pow4[k+1] = 4^k, k = 0..31

Third(k) == WDivS(Pow4[k + 1], 3).q                   \* floor(4^k / 3)

(* The bounds of the buckets: sequence of wide numbers, index 0-based i at [i+1].
   first = the position of the first bound of each power of four. *)
\* bounds cur, cur + d, cur + 2d, ... below last
RECURSIVE StepTo(_, _, _, _)
StepTo(cur, d, last, acc) == IF WLt(cur, last) THEN StepTo(WAdd(cur, d), d, last, Append(acc, cur)) ELSE acc
RECURSIVE PowerFrom(_, _, _)
PowerFrom(k, acc, first) ==
  IF k > 30 THEN [bounds |-> acc, first |-> first]
  ELSE LET d == Third(k)
       IN PowerFrom(k + 1, StepTo(Pow4[k + 1], d, WSub(Pow4[k + 2], d), acc), Append(first, Len(acc)))
SchemeV == TLCEval(PowerFrom(1, <<WOfInt(1), WOfInt(2), WOfInt(3)>>, <<0>>))

Bounds == SchemeV.bounds \o <<WMaxInt64>>
NumBuckets == Len(Bounds)

\* index of the power of four that v >= 4 belongs to
Exp4(v) == CHOOSE k \in 1..31 : WLe(Pow4[k + 1], v) /\ (k = 31 \/ WLt(v, Pow4[k + 2]))

(* 0-based bucket index of an amount: <<negative, magnitude>> is reduced to 0 by the caller *)
RECURSIVE CountSteps(_, _, _, _)
CountSteps(cur, d, v, j) == LET nx == WAdd(cur, d) IN IF WLe(nx, v) THEN CountSteps(nx, d, v, j + 1) ELSE j

IndexOf(v) ==
  IF v = WZero THEN 0
  ELSE IF WLe(v, WOfInt(4)) THEN v[4]
  ELSE LET k == Exp4(v)
       IN IF k > 30 THEN NumBuckets - 1
          ELSE LET off == CountSteps(Pow4[k + 1], Third(k), v, 0)
                   pos == off + SchemeV.first[k + 1]
               IN IF pos >= NumBuckets - 1 THEN NumBuckets - 1 ELSE pos + 1

(* The largest amount of every bucket. (The steps do not divide a power of four evenly: what is left
   over before the next power belongs to the first bucket of that power.) *)
RECURSIVE AddN(_, _, _)
AddN(w, d, n) == IF n = 0 THEN w ELSE AddN(WAdd(w, d), d, n - 1)
LargestOf(i) ==
  LET b == Bounds[i + 1]
      k == IF i >= 4 /\ i < NumBuckets - 1 /\ b \in {Pow4[j] : j \in 3..32} THEN CHOOSE j \in 2..31 : Pow4[j + 1] = b ELSE 0
  IN IF i = 0 THEN WZero ELSE IF i = NumBuckets - 1 THEN WMaxInt64
     ELSE WSub(IF k = 0 THEN b ELSE AddN(Pow4[k], Third(k - 1), SchemeV.first[k + 1] - SchemeV.first[k]), WOfInt(1))

Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
HexAt(i) == Hex[(i % 16) + 1]
Tag4(prefix, i) == prefix \o HexAt(i \div 4096) \o HexAt(i \div 256) \o HexAt(i \div 16) \o HexAt(i)
======================================================================
