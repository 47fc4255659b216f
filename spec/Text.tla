----------------------------- MODULE Text -----------------------------
(* Byte strings (sequences of codes), the number grammar of both protocols, and
   the replacement of invalid characters.                                       *)
EXTENDS Wide, Sequences, FiniteSets, TLC

Printable == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
\* 33 '"' and 92 '\' are left out above
CodeList == TLCEval(<<32, 33>> \o [i \in 1..57 |-> 34 + i] \o [i \in 1..34 |-> 92 + i])
CodeOf == TLCEval([c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
                     CodeList[CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c]])
\* the codes of an ASCII string
B(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

At(s, p) == IF p >= 1 /\ p <= Len(s) THEN s[p] ELSE 0
Sub(s, a, b) == IF b < a THEN <<>> ELSE SubSeq(s, a, b)

IsDigit(c) == c >= 48 /\ c <= 57
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99
IsHex(c) == HexVal(c) < 16
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
IsAlnum(c) == IsDigit(c) \/ (Lower(c) >= 97 /\ Lower(c) <= 122)
ValidCode(c) == IsAlnum(c) \/ c \in {46, 45, 95, 126, 94}       \* . - _ ~ ^
Clean(s) == [i \in 1..Len(s) |-> IF ValidCode(s[i]) THEN s[i] ELSE 95]

\* first position from p whose byte is not such
Skip(s, p, Is(_)) == CHOOSE q \in p..(IF p > Len(s) THEN p ELSE Len(s) + 1) :
                        ~Is(At(s, q)) /\ \A r \in p..(q - 1) : Is(At(s, r))

RECURSIVE FirstOf(_, _, _)
FirstOf(s, p, C) == IF p > Len(s) THEN 0 ELSE IF s[p] \in C THEN p ELSE FirstOf(s, p + 1, C)   \* 0: none

-----------------------------------------------------------------------
(* Numbers. [k |-> "dec" / "hex" / "inf" / "nan", neg, ds |-> digits, e |-> exponent]:
   a decimal is ds * 10^e, a hexadecimal one ds (base 16) * 2^e.                      *)
Digits(s, a, b, val(_)) == [i \in 1..(b - a + 1) |-> val(s[a + i - 1])]
DecVal(c) == c - 48
RECURSIVE Strip(_)
Strip(ds) == IF ds # <<>> /\ Head(ds) = 0 THEN Strip(Tail(ds)) ELSE ds     \* without leading zeros
RECURSIVE IntOfDigits(_, _)
IntOfDigits(ds, acc) == IF ds = <<>> THEN acc
                        ELSE IF acc > 9999 THEN 99999 ELSE IntOfDigits(Tail(ds), 10 * acc + Head(ds))

NoNumber(p) == [end |-> p, num |-> [k |-> "none", neg |-> FALSE, ds |-> <<>>, e |-> 0]]
Matches(s, p, lower) == \A i \in 1..Len(lower) : Lower(At(s, p + i - 1)) = lower[i]

\* the exponent part that may follow a mantissa ending before p: [end, e]
Exponent(s, p, letter) ==
  IF Lower(At(s, p)) # letter THEN [end |-> p, e |-> 0]
  ELSE LET sg == At(s, p + 1) IN
       LET q == IF sg \in {43, 45} THEN p + 2 ELSE p + 1
           z == Skip(s, q, IsDigit)
           v == IntOfDigits(Digits(s, q, z - 1, DecVal), 0)
       IN IF z = q THEN [end |-> p, e |-> 0] ELSE [end |-> z, e |-> IF sg = 45 THEN 0 - v ELSE v]

Mantissa(s, p, Is(_), val(_)) ==          \* digits [. digits], at least one digit
  LET a == Skip(s, p, Is)
      dot == At(s, a) = 46
      z == IF dot THEN Skip(s, a + 1, Is) ELSE a
      n == (a - p) + (IF dot THEN z - a - 1 ELSE 0)
  IN [n |-> n, end |-> z,
      ds |-> Digits(s, p, a - 1, val) \o (IF dot THEN Digits(s, a + 1, z - 1, val) ELSE <<>>),
      frac |-> IF dot THEN z - a - 1 ELSE 0]

\* as strtod: the longest number at p (after spaces)
Strtod(s, p0) ==
  LET p1 == Skip(s, p0, IsSpace)
      sg == At(s, p1)
      neg == sg = 45
      p == IF sg \in {43, 45} THEN p1 + 1 ELSE p1
      m == Mantissa(s, p, IsDigit, DecVal)
      x == Mantissa(s, p + 2, IsHex, HexVal)
  IN IF Matches(s, p, <<105, 110, 102>>)                               \* inf
     THEN [end |-> IF Matches(s, p + 3, <<105, 110, 105, 116, 121>>) THEN p + 8 ELSE p + 3,
           num |-> [k |-> "inf", neg |-> neg, ds |-> <<>>, e |-> 0]]
     ELSE IF Matches(s, p, <<110, 97, 110>>)                           \* nan
     THEN LET q == IF At(s, p + 3) = 40 THEN Skip(s, p + 4, LAMBDA c : IsAlnum(c) \/ c = 95) ELSE 0
          IN [end |-> IF q > 0 /\ At(s, q) = 41 THEN q + 1 ELSE p + 3, num |-> [k |-> "nan", neg |-> neg, ds |-> <<>>, e |-> 0]]
     ELSE IF At(s, p) = 48 /\ Lower(At(s, p + 1)) = 120 /\ x.n > 0     \* 0x
     THEN LET e == Exponent(s, x.end, 112)
          IN [end |-> e.end, num |-> [k |-> "hex", neg |-> neg, ds |-> Strip(x.ds), e |-> e.e - 4 * x.frac]]
     ELSE IF m.n = 0 THEN NoNumber(p0)
     ELSE LET e == Exponent(s, m.end, 101)
          IN [end |-> e.end, num |-> [k |-> "dec", neg |-> neg, ds |-> Strip(m.ds), e |-> e.e - m.frac]]

\* a Wide number from decimal digits, saturating: [w, over]
RECURSIVE WideOf(_, _)
WideOf(ds, acc) ==
  IF ds = <<>> THEN [w |-> acc, over |-> FALSE]
  ELSE IF WLt(WDivS(WMax64, 10).q, acc) THEN [w |-> WMax64, over |-> TRUE]
  ELSE LET t == WMulS(acc, 10)
           u == WAdd(t, WOfInt(Head(ds)))
       IN IF WLt(u, t) THEN [w |-> WMax64, over |-> TRUE] ELSE WideOf(Tail(ds), u)

\* as strtoull / strtoll in base 10: [end, neg, w, over]
Strtoint(s, p0) ==
  LET p1 == Skip(s, p0, IsSpace)
      sg == At(s, p1)
      p == IF sg \in {43, 45} THEN p1 + 1 ELSE p1
      z == Skip(s, p, IsDigit)
      v == WideOf(Digits(s, p, z - 1, DecVal), WZero)
  IN IF z = p THEN [end |-> p0, neg |-> FALSE, w |-> WZero, over |-> FALSE]
     ELSE [end |-> z, neg |-> sg = 45, w |-> v.w, over |-> v.over]
UintOf(r) == IF r.neg /\ ~r.over THEN WSub(WZero, r.w) ELSE r.w

-----------------------------------------------------------------------
(* What is needed of numbers: sign, integer part, exactness *)
Finite(n) == n.k \in {"dec", "hex"}
\* decimal position of the first digit; far out of the range of doubles it is 0 or infinite
Under(n) == n.k = "dec" /\ Len(n.ds) + n.e < 0 - 330
Over(n) == n.k = "dec" /\ Len(n.ds) + n.e > 310
Sign(n) == CASE n.k = "nan" -> 2
             [] n.k = "inf" -> IF n.neg THEN 0 - 1 ELSE 1
             [] OTHER -> IF n.ds = <<>> \/ Under(n) THEN 0 ELSE IF n.neg THEN 0 - 1 ELSE 1

Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Pow2(_, _)
Pow2(w, n) == IF n = 0 THEN w ELSE Pow2(WMulS(w, 2), n - 1)
RECURSIVE Half(_, _)
Half(w, n) == IF n = 0 THEN w ELSE Half(WDivS(w, 2).q, n - 1)
RECURSIVE WideHex(_, _)
WideHex(ds, acc) == IF ds = <<>> THEN acc ELSE WideHex(Tail(ds), WAdd(WMulS(acc, 16), WOfInt(Head(ds))))

\* the magnitude times 10^shift, truncated to an integer: [ok, w]; not ok when beyond 2^62
MaxInt62 == Half(WMax64, 2)
TruncInt(n, shift) ==
  IF n.k = "dec" THEN
    IF n.ds = <<>> \/ Under(n) THEN [ok |-> TRUE, w |-> WZero]
    ELSE LET e == n.e + shift IN
         LET keep == Len(n.ds) + e IN
         IF keep > 20 THEN [ok |-> FALSE, w |-> WZero]
         ELSE IF keep <= 0 THEN [ok |-> TRUE, w |-> WZero]
         ELSE LET ds == IF e >= 0 THEN n.ds \o Zeros(e) ELSE SubSeq(n.ds, 1, keep)
                  v == WideOf(ds, WZero)
              IN [ok |-> ~v.over /\ WLe(v.w, MaxInt62), w |-> v.w]
  ELSE IF n.k = "hex" THEN
    IF Len(n.ds) > 7 \/ n.e > 3 \/ n.e < 0 - 40 THEN [ok |-> FALSE, w |-> WZero]
    ELSE LET m == WideHex(n.ds, WZero)
             RECURSIVE Dec(_, _)
             Dec(w, k) == IF k = 0 THEN w ELSE Dec(WMulS(w, 10), k - 1)
             d == Dec(m, IF shift > 0 THEN shift ELSE 0)
         IN [ok |-> TRUE, w |-> IF n.e >= 0 THEN Pow2(d, n.e) ELSE Half(d, 0 - n.e)]
  ELSE [ok |-> FALSE, w |-> WZero]

RECURSIVE NoTrail(_)
NoTrail(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN NoTrail(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
\* a multiple of 1/8 below 2^30 or so: products with powers of ten are exact in the code, too
Eighths(n) ==
  IF n.k = "hex" THEN n.e >= 0 - 3 /\ Len(n.ds) <= 7
  ELSE /\ Len(n.ds) + n.e <= 9
       /\ LET keep == Len(n.ds) + n.e
              frac == IF n.e >= 0 THEN <<>>
                      ELSE IF keep >= 0 THEN SubSeq(n.ds, keep + 1, Len(n.ds)) ELSE Zeros(0 - keep) \o n.ds
          IN NoTrail(frac) \in {<<>>, <<5>>, <<2, 5>>, <<7, 5>>, <<1, 2, 5>>, <<3, 7, 5>>, <<6, 2, 5>>, <<8, 7, 5>>}
=======================================================================
