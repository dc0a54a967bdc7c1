------------------------------ MODULE Coupling ------------------------------
(* Wigner 3-j symbols by Racah's sum, and the invariant tri-polar weight       *)
(*   T(u,v,n) = (2l1+1)(2l2+1)(2L+1) (l1 l2 L;0 0 0)                           *)
(*              sum_m (l1 l2 L;m1 m2 M) y_l1m1(u) y_l2m2(v) y_LM(n)             *)
(* of three directions.  Square roots cancel between the symbols and the       *)
(* harmonics, so T times |u|^l1 |v|^l2 |n|^L is an integer over TDen(l).       *)
EXTENDS Rat, Harm, FiniteSets, TLC

Sign(k) == IF k % 2 = 0 THEN 1 ELSE -1
Triangle(a, b, c) == c <= a + b /\ a <= b + c /\ b <= a + c
RFact(n) == R(Fact(n))
RMul3(a, b, c) == RMul(a, RMul(b, c))
RSum(S, f) == LET RECURSIVE T(_)
                  T(X) == IF X = {} THEN RZero ELSE LET e == CHOOSE e \in X : TRUE IN RAdd(f[e], T(X \ {e}))
              IN T(S)
\* triangle coefficient
Tri(a, b, c) == RMul(RMul3(RFact(a + b - c), RFact(a - b + c), RFact(b + c - a)), RInv(RFact(a + b + c + 1)))
\* Racah's alternating sum, with the overall sign
Racah(l, m) ==
  LET a == l[1] b == l[2] c == l[3]
      lo == MaxI(0, MaxI(b - c - m[1], a - c + m[2]))
      hi == MinI(a + b - c, MinI(a - m[1], b + m[2]))
      D(t) == RMul3(RMul(RFact(t), RFact(c - b + t + m[1])), RMul(RFact(c - a + t - m[2]), RFact(a + b - c - t)),
                    RMul(RFact(a - t - m[1]), RFact(b - t + m[2])))
      f == [t \in lo..hi |-> RMul(R(Sign(t)), RInv(D(t)))]
  IN RMul(R(Sign(a - b - m[3])), RSum(lo..hi, f))
Allowed(l, m) == /\ Triangle(l[1], l[2], l[3])
                 /\ m[1] + m[2] + m[3] = 0
                 /\ \A j \in 1..3 : m[j] <= l[j] /\ -m[j] <= l[j]
\* square of the symbol and its sign
W2(l, m) ==
  IF ~Allowed(l, m) THEN RZero
  ELSE LET r == Racah(l, m)
           g(j) == RMul(RFact(l[j] + m[j]), RFact(l[j] - m[j]))
       IN RMul3(RMul(RMul(r, g(1)), r), RMul(g(2), g(3)), Tri(l[1], l[2], l[3]))
WSign(l, m) == IF ~Allowed(l, m) THEN 0 ELSE LET r == Racah(l, m) IN IF r[1] > 0 THEN 1 ELSE IF r[1] < 0 THEN -1 ELSE 0
Zero3 == <<0, 0, 0>>
NonVanishing(l) == Triangle(l[1], l[2], l[3]) /\ (l[1] + l[2] + l[3]) % 2 = 0

\* coefficient of YSolid products in T
Orders(l) == {m \in (-l[1]..l[1]) \X (-l[2]..l[2]) \X (-l[3]..l[3]) : Allowed(l, m)}
Deg(l) == (2*l[1] + 1) * (2*l[2] + 1) * (2*l[3] + 1)
Front(l) == RMul(RMul3(R(Deg(l)), Tri(l[1], l[2], l[3]), Racah(l, Zero3)), RMul3(RFact(l[1]), RFact(l[2]), RFact(l[3])))
TCoef(l, m) == LET k(j) == l[j] - AbsI(m[j]) IN
   RMul3(RMul(Front(l), <<1, IPow(2, l[1] + l[2] + l[3])>>), Racah(l, m), RMul3(RFact(k(1)), RFact(k(2)), RFact(k(3))))
Lcm(a, b) == (a \div Gcd(a, b)) * b
TDen(l) == LET RECURSIVE D(_)
               D(X) == IF X = {} THEN 1 ELSE LET e == CHOOSE e \in X : TRUE IN Lcm(TCoef(l, e)[2], D(X \ {e}))
           IN D(Orders(l))
\* the terms as a sequence of <<m1, m2, M, integer coefficient>>
TTerms(l) == LET d == TDen(l)
                 RECURSIVE T(_)
                 T(X) == IF X = {} THEN <<>> ELSE LET e == CHOOSE e \in X : TRUE
                                                      c == TCoef(l, e) IN
                         (IF c[1] = 0 THEN <<>> ELSE <<<<e[1], e[2], e[3], c[1] * (d \div c[2])>>>>) \o T(X \ {e})
             IN T(Orders(l))
\* T as a Gaussian integer over TDen (its imaginary part must vanish)
TGauss(l, terms, u, v, n) ==
  LET S(k) == LET t == terms[k] IN GScale(t[4], GMul(GMul(YSolid(l[1], t[1], u), YSolid(l[2], t[2], v)), YSolid(l[3], t[3], n)))
      RECURSIVE A(_)
      A(k) == IF k = 0 THEN <<0, 0>> ELSE LET x == S(k) y == A(k - 1) IN <<x[1] + y[1], x[2] + y[2]>>
  IN A(Len(terms))
=============================================================================
