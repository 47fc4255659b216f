---------------------------- MODULE Smile ----------------------------
(* The Smile format as far as it can hold an array of non-negative integers, doubles and ASCII
   strings: decodes the bytes of a payload. Judges a sequence of payloads made by one object. *)
EXTENDS Wide, Integers, Sequences, TLC, Json

ASSUME TLCSet(7, JsonDeserialize("hist.json"))
(* A case is a sequence of payloads [vals, ok, b]: what was appended: <<"i" or "d", limbs>> or
   <<"s", bytes>>; whether it decompressed as one gzip stream, and to which bytes.          *)
Hist == TLCGet(7)
VARIABLE hi

Bad == <<"bad", <<>>>>
Bytes(bs, p, n) == IF p + n - 1 > Len(bs) THEN <<>> ELSE SubSeq(bs, p, p + n - 1)
RECURSIVE EndMark(_, _)
EndMark(bs, p) == IF p > Len(bs) THEN 0 ELSE IF bs[p] = 252 THEN p ELSE EndMark(bs, p + 1)
\* an integer of variable length: seven bits each, and six in the last byte, which has bit 7
RECURSIVE VInt(_, _, _)
VInt(bs, p, acc) == IF p > Len(bs) THEN [end |-> 0, v |-> acc]
                    ELSE IF bs[p] >= 128 THEN [end |-> p + 1, v |-> WAdd(WMulS(acc, 64), WOfInt(bs[p] % 64))]
                    ELSE VInt(bs, p + 1, WAdd(WMulS(acc, 128), WOfInt(bs[p])))
RECURSIVE Septets(_, _, _, _)
Septets(bs, p, n, acc) == IF n = 0 THEN acc ELSE Septets(bs, p + 1, n - 1, WAdd(WMulS(acc, 128), WOfInt(bs[p])))
Even(w) == w[4] % 2 = 0

\* the value that starts at p: [v, end]; end 0: malformed
ValueAt(bs, p) ==
  LET t == bs[p] IN
  IF t = 32 THEN [v |-> <<"s", <<>>>>, end |-> p + 1]
  ELSE IF t >= 64 /\ t <= 95 THEN [v |-> <<"s", Bytes(bs, p + 1, t - 63)>>, end |-> IF p + t - 63 <= Len(bs) THEN p + t - 62 ELSE 0]
  ELSE IF t >= 96 /\ t <= 127 THEN [v |-> <<"s", Bytes(bs, p + 1, t - 63)>>, end |-> IF p + t - 63 <= Len(bs) THEN p + t - 62 ELSE 0]
  ELSE IF t = 224 THEN LET e == EndMark(bs, p + 1) IN [v |-> <<"s", IF e = 0 THEN <<>> ELSE SubSeq(bs, p + 1, e - 1)>>, end |-> IF e = 0 THEN 0 ELSE e + 1]
  ELSE IF t >= 192 /\ t <= 223 /\ t % 2 = 0 THEN [v |-> <<"i", WOfInt((t - 192) \div 2)>>, end |-> p + 1]
  ELSE IF t \in {36, 37}
  THEN LET r == VInt(bs, p + 1, WZero) IN
       IF r.end = 0 \/ ~Even(r.v) \/ r.end - p > (IF t = 36 THEN 6 ELSE 11) THEN [v |-> Bad, end |-> 0]
       ELSE [v |-> <<"i", WDivS(r.v, 2).q>>, end |-> r.end]
  ELSE IF t = 41 /\ p + 10 <= Len(bs) /\ (\A i \in (p + 1)..(p + 10) : bs[i] < 128) /\ bs[p + 1] < 2
  THEN [v |-> <<"d", Septets(bs, p + 1, 10, WZero)>>, end |-> p + 11]
  ELSE [v |-> Bad, end |-> 0]

RECURSIVE Values(_, _, _)
Values(bs, p, acc) ==
  IF p > Len(bs) THEN <<Bad>>
  ELSE IF bs[p] = 249 THEN (IF p = Len(bs) \/ (p = Len(bs) - 1 /\ bs[p + 1] = 255) THEN acc ELSE <<Bad>>)
  ELSE LET r == ValueAt(bs, p) IN IF r.end = 0 THEN <<Bad>> ELSE Values(bs, r.end, Append(acc, r.v))

\* header (no shared names or values), start of the array
Decode(bs) == IF Len(bs) < 6 \/ SubSeq(bs, 1, 3) # <<58, 41, 10>> \/ bs[4] \notin {0, 4} \/ bs[5] # 248
              THEN <<Bad>> ELSE Values(bs, 6, <<>>)

Judge(c) == \A i \in 1..Len(c) : c[i].ok /\ LET got == TLCEval(Decode(c[i].b)) IN
              /\ Len(got) = Len(c[i].vals)
              /\ \A j \in 1..Len(got) : got[j][1] = c[i].vals[j][1] /\ got[j][2] = c[i].vals[j][2]

Init == hi \in 1..Len(Hist)
Next == FALSE /\ UNCHANGED hi
Spec == Init /\ [][Next]_hi
Explained == IF TLCEval(Judge(Hist[hi])) THEN PrintT("@@" \o ToString(hi)) ELSE TRUE
======================================================================
