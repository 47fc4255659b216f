---------------------------- MODULE Wide ----------------------------
(* Unsigned 64-bit numbers as four 16-bit limbs, most significant first.
   TLC's integers have 32 bits. *)
EXTENDS Integers, Sequences
LOCAL B == 65536

WZero == <<0, 0, 0, 0>>
WOfInt(n) == <<0, 0, n \div B, n % B>>           \* 0 <= n < 2^31

WLt(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ a[2] < b[2]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] < b[4]
WLe(a, b) == ~WLt(b, a)
WMax(a, b) == IF WLt(a, b) THEN b ELSE a
WMin(a, b) == IF WLt(a, b) THEN a ELSE b

\* modulo 2^64
WAdd(a, b) ==
  LET s4 == a[4] + b[4]
      s3 == a[3] + b[3] + s4 \div B
      s2 == a[2] + b[2] + s3 \div B
      s1 == a[1] + b[1] + s2 \div B
  IN <<s1 % B, s2 % B, s3 % B, s4 % B>>
WCarry(a, b) ==      \* TRUE when a + b does not fit
  LET s4 == a[4] + b[4]
      s3 == a[3] + b[3] + s4 \div B
      s2 == a[2] + b[2] + s3 \div B
  IN a[1] + b[1] + s2 \div B >= B
WNot(a) == <<B - 1 - a[1], B - 1 - a[2], B - 1 - a[3], B - 1 - a[4]>>
WSub(a, b) == WAdd(WAdd(a, WNot(b)), <<0, 0, 0, 1>>)

\* times a small number, 0 <= k <= 32767, modulo 2^64
WMulS(a, k) ==
  LET p4 == a[4] * k
      p3 == a[3] * k + p4 \div B
      p2 == a[2] * k + p3 \div B
      p1 == a[1] * k + p2 \div B
  IN <<p1 % B, p2 % B, p3 % B, p4 % B>>
\* quotient and remainder by a small number, 1 <= k <= 32767
WDivS(a, k) ==
  LET q1 == a[1] \div k  r1 == a[1] % k
      t2 == r1 * B + a[2]  q2 == t2 \div k  r2 == t2 % k
      t3 == r2 * B + a[3]  q3 == t3 \div k  r3 == t3 % k
      t4 == r3 * B + a[4]  q4 == t4 \div k  r4 == t4 % k
  IN [q |-> <<q1, q2, q3, q4>>, r |-> r4]
WMax64 == <<B - 1, B - 1, B - 1, B - 1>>
WMaxInt64 == <<32767, B - 1, B - 1, B - 1>>
=====================================================================
