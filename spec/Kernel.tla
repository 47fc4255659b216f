---------------------------- MODULE Kernel ----------------------------
(* The kernel's UDP table and receive buffer limit, as texts: judges what was read from them. *)
EXTENDS Text, Json

ASSUME TLCSet(7, JsonDeserialize("hist.json"))
(* [k |-> "udp", lines (as codes), there, ports, r]: r: per port <<>> or <<queue, drops>> as wide numbers;
   of a line the first 2000 bytes, which hold all that matters
   [k |-> "max", file, there, r]: the limit, as a wide number, read twice                   *)
Hist == TLCGet(7)
VARIABLE hi

RECURSIVE Split(_, _, _, _)
\* the pieces between any of the separators; empty ones are kept
Split(s, p, seps, acc) ==
  LET q == FirstOf(s, p, seps) IN
  IF q = 0 THEN Append(acc, Sub(s, p, Len(s))) ELSE Split(s, q + 1, seps, Append(acc, Sub(s, p, q - 1)))
Fields(l) == SelectSeq(Split(l, 1, {32, 58}, <<>>), LAMBDA f : f # <<>>)

RECURSIVE HexW(_, _)
HexW(ds, acc) == IF ds = <<>> THEN acc ELSE HexW(Tail(ds), WAdd(WMulS(acc, 16), WOfInt(HexVal(Head(ds)))))
RECURSIVE DecW(_, _)
DecW(ds, acc) == IF ds = <<>> THEN acc ELSE DecW(Tail(ds), WAdd(WMulS(acc, 10), WOfInt(Head(ds) - 48)))

RECURSIVE Lookup(_, _, _)
\* what the table says of a port: the first complete line
Lookup(ls, i, port) ==
  IF i > Len(ls) THEN <<>>
  ELSE LET f == TLCEval(Fields(ls[i])) IN
       IF Len(f) >= 17 /\ HexW(f[3], WZero) = WOfInt(port) THEN <<HexW(f[8], WZero), DecW(f[17], WZero)>>
       ELSE Lookup(ls, i + 1, port)

Default == WOfInt(16 * 1024 * 1024)
Trim(s) == LET keep == TLCEval({i \in 1..Len(s) : ~IsSpace(s[i])}) IN
           IF keep = {} THEN <<>>
           ELSE SubSeq(s, CHOOSE i \in keep : \A j \in keep : i <= j, CHOOSE i \in keep : \A j \in keep : j <= i)
\* the number in the file; a number that is too large for the kernel may be taken for none
Limits(s0) ==
  LET s == Trim(s0)
      ds == IF s # <<>> /\ Head(s) = 43 THEN Tail(s) ELSE s
      num == ds # <<>> /\ \A i \in 1..Len(ds) : IsDigit(ds[i])
      v == DecW(Strip(ds), WZero)
      fits == Len(Strip(ds)) <= 10 /\ WLe(v, <<0, 0, 32767, 65535>>)
  IN IF ~num THEN {Default} ELSE IF fits THEN {v} ELSE {Default, <<0, 0, 32767, 65535>>}

Judge(c) ==
  IF c.k = "udp"
  THEN \A i \in 1..Len(c.ports) : c.r[i] = (IF ~c.there THEN <<>> ELSE Lookup(c.lines, 2, c.ports[i]))
  ELSE c.r[1] = c.r[2] /\ c.r[1] \in (IF c.there THEN TLCEval(Limits(c.file)) ELSE {Default})

Init == hi \in 1..Len(Hist)
Next == FALSE /\ UNCHANGED hi
Spec == Init /\ [][Next]_hi
Explained == IF TLCEval(Judge(Hist[hi])) THEN PrintT("@@" \o ToString(hi)) ELSE TRUE
=======================================================================
