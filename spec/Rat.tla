-------------------------------- MODULE Rat --------------------------------
(* Exact rationals <<num, den>> with den > 0, reduced.  TLC integers are    *)
(* 32-bit and overflow is an error, so a result is never silently wrong.    *)
EXTENDS Integers, Sequences

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

Red(n, d) == LET g0 == Gcd(AbsI(n), AbsI(d))
                 g  == IF g0 = 0 THEN 1 ELSE g0
                 s  == IF d < 0 THEN -1 ELSE 1
             IN <<(s * n) \div g, (s * d) \div g>>
R(n) == <<n, 1>>
RZero == <<0, 1>>
ROne == <<1, 1>>
RAdd(a, b) == LET g == Gcd(a[2], b[2]) IN
              Red(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET x == Red(a[1], b[2])
                  y == Red(b[1], a[2])
              IN <<x[1] * y[1], x[2] * y[2]>>
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
REq(a, b) == a = b
RPow(a, n) == LET RECURSIVE P(_)
                  P(k) == IF k = 0 THEN ROne ELSE RMul(a, P(k - 1))
              IN P(n)
=============================================================================
