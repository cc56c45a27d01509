------------------------------- MODULE Rat --------------------------------
(* Exact non-negative rationals <<numerator, denominator>> in lowest terms; <<1, 0>> is infinity. *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RZero == <<0, 1>>
ROne == <<1, 1>>
RInf == <<1, 0>>
RRed(r) == LET g == Gcd(Abs(r[1]), r[2]) IN IF g <= 1 THEN r ELSE <<r[1] \div g, r[2] \div g>>
RMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN RZero ELSE IF a[2] = 0 \/ b[2] = 0 THEN RInf ELSE
  LET g == Gcd(Abs(a[1]), b[2]) h == Gcd(Abs(b[1]), a[2]) IN <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RAdd(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN RInf ELSE LET g == Gcd(a[2], b[2]) IN RRed(<<a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g)>>)
RSub(a, b) == LET g == Gcd(a[2], b[2]) IN RRed(<<a[1] * (b[2] \div g) - b[1] * (a[2] \div g), a[2] * (b[2] \div g)>>)
RDiv(a, b) == RMul(a, <<b[2], b[1]>>)
RLt(a, b) == IF a[2] = 0 THEN FALSE ELSE IF b[2] = 0 THEN TRUE ELSE a[1] * b[2] < b[1] * a[2]
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
=============================================================================
