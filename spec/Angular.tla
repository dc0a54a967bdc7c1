------------------------------ MODULE Angular ------------------------------
(* Angular quantities as exact numbers.                                       *)
(*  * Wigner 3-j symbols of any degrees up to 15, as an integer (Racah's sum  *)
(*    over products of binomials) times the square root of a product of      *)
(*    prime powers; coupling coefficients are products of two of them.        *)
(*  * Reduced spherical harmonics of integer vectors (Harm), also on meshes.  *)
(*  * Spherical Bessel functions as integer polynomials in 1/x multiplying    *)
(*    sin x and cos x, from the three-term recurrence (a machine stepping     *)
(*    through the orders).                                                    *)
EXTENDS Coupling, Json, IOUtils

Scen == JsonDeserialize(IOEnv.SCEN)
Primes == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43>>
RECURSIVE FExp(_, _)
FExp(n, p) == IF n < p THEN 0 ELSE (n \div p) + FExp(n \div p, p)      \* exponent of p in n!
\* Racah's sum times the factorials of the triangle
Bino(l, m) ==
  LET a == l[1] b == l[2] c == l[3]
      lo == MaxI(0, MaxI(b - c - m[1], a - c + m[2]))
      hi == MinI(a + b - c, MinI(a - m[1], b + m[2]))
      RECURSIVE T(_)
      T(t) == IF t > hi THEN 0 ELSE Sign(t) * Binom(a + b - c, t) * Binom(a - b + c, a - m[1] - t) * Binom(b + c - a, b + m[2] - t) + T(t + 1)
  IN T(lo)
WNum(l, m) == IF ~Allowed(l, m) THEN 0 ELSE Sign(l[1] - l[2] - m[3]) * Bino(l, m)
WExp(l, m) == [q \in DOMAIN Primes |-> LET E(n) == FExp(n, Primes[q]) IN
   E(l[1] + m[1]) + E(l[1] - m[1]) + E(l[2] + m[2]) + E(l[2] - m[2]) + E(l[3] + m[3]) + E(l[3] - m[3])
   - E(l[1] + l[2] - l[3]) - E(l[1] - l[2] + l[3]) - E(l[2] + l[3] - l[1]) - E(l[1] + l[2] + l[3] + 1)]
NoExp == [q \in DOMAIN Primes |-> 0]
\* coupling coefficient: degrees, two integers and the prime powers under the root
Couple(l, m) ==
  LET n == WNum(l, m) n0 == WNum(l, Zero3) IN
  IF n = 0 \/ n0 = 0 THEN [m |-> m, deg |-> Deg(l), num |-> n, num0 |-> n0, exp |-> IF n = 0 THEN NoExp ELSE WExp(l, m), vanish |-> TRUE]
  ELSE [m |-> m, deg |-> Deg(l), num |-> n, num0 |-> n0, exp |-> WExp(l, m), exp0 |-> WExp(l, Zero3), vanish |-> FALSE]

\* harmonics of a vector: <<re, im>> over 2^l |v|^l, with the squared prefactor; no direction at the origin
Ylm(l, m, v) == IF v = Zero3 THEN [z |-> <<IF l = 0 THEN 1 ELSE 0, 0>>, n2 |-> 1] ELSE [z |-> YSolid(l, m, v), n2 |-> Norm2(v)]
\* mesh index as a displacement: upper half is negative
Near(a, n) == IF a < (n + 1) \div 2 THEN a ELSE a - n
Cells(s) == [c \in 1..(s.n[1] * s.n[2] * s.n[3]) |->
   LET z == (c - 1) % s.n[3] y == ((c - 1) \div s.n[3]) % s.n[2] x == (c - 1) \div (s.n[3] * s.n[2]) IN
   <<s.q[1] * Near(x, s.n[1]), s.q[2] * Near(y, s.n[2]), s.q[3] * Near(z, s.n[3])>>]

VARIABLES i, k, st
vars == <<i, k, st>>
Sc == Scen[i]
\* coefficients of x^-1, x^-2, ...
Pad(p, n) == [j \in 1..n |-> IF j <= Len(p) THEN p[j] ELSE 0]
Step(prev, now, l) == LET n == l + 2 a == Pad(prev, n) b == Pad(now, n) IN [j \in 1..n |-> (IF j > 1 THEN (2 * l + 1) * b[j - 1] ELSE 0) - a[j]]
Init == /\ i \in DOMAIN Scen /\ k = 0
        /\ st = CASE Scen[i].kind = "bessel" -> [s0 |-> <<0>>, c0 |-> <<1>>, s |-> <<1>>, c |-> <<0>>]
                  [] Scen[i].kind = "order" -> [f |-> <<>>, top |-> 0]
                  [] Scen[i].kind = "gamma" -> [f |-> <<>>, z |-> Scen[i].z]
                  [] OTHER -> <<>>
\* j_{-1} = cos x / x, j_0 = sin x / x
Recur == /\ Sc.kind = "bessel" /\ k < Sc.l
         /\ st' = [s0 |-> st.s, c0 |-> st.c, s |-> Step(st.s0, st.s, k), c |-> Step(st.c0, st.c, k)]
         /\ k' = k + 1 /\ UNCHANGED i
\* high orders: the factors of the recurrence x (j_(l+1) + j_(l-1)) = (2 l + 1) j_l, to be applied to sin x / x and cos x / x;
\* their sum is the square of the order, below which no order is interpolated to
Climb == /\ Sc.kind = "order" /\ k < Sc.l
         /\ st' = [f |-> Append(st.f, 2 * k + 1), top |-> st.top + 2 * k + 1]
         /\ k' = k + 1 /\ UNCHANGED i
\* the gamma function of z + 1 is z times that of z; arguments in quarters
Rise == /\ Sc.kind = "gamma" /\ k < Sc.l
        /\ st' = [f |-> Append(st.f, st.z), z |-> <<st.z[1] + 4, st.z[2]>>]
        /\ k' = k + 1 /\ UNCHANGED i
Steps == {"bessel", "order", "gamma"}
Eval == /\ k = 0 /\ Sc.kind \notin Steps
        /\ st' = CASE Sc.kind = "couple" -> [t |-> [j \in DOMAIN Sc.m |-> Couple(Sc.l, Sc.m[j])], dead |-> ~NonVanishing(Sc.l)]
                   [] Sc.kind = "ylm" -> [y |-> [j \in DOMAIN Sc.v |-> Ylm(Sc.l, Sc.m, Sc.v[j])], pref |-> Pref2(Sc.l, Sc.m)]
                   [] Sc.kind = "mesh" -> [y |-> [j \in DOMAIN Cells(Sc) |-> Ylm(Sc.l, Sc.m, Cells(Sc)[j])], pref |-> Pref2(Sc.l, Sc.m)]
        /\ k' = 1 /\ UNCHANGED i
Next == Recur \/ Climb \/ Rise \/ Eval
Spec == Init /\ [][Next]_vars
Done == IF Sc.kind \in Steps THEN k = Sc.l ELSE k = 1
Emit == Done => PrintT(ToJson([i |-> i, st |-> st]))

\* -- properties ---------------------------------------------------------------
Rot(x) == <<x[2], x[3], x[1]>>
Swap(x) == <<x[2], x[1], x[3]>>
Neg(x) == <<-x[1], -x[2], -x[3]>>
\* symmetries of the symbols
Symmetric == (k = 1 /\ Sc.kind = "couple") => \A j \in DOMAIN Sc.m : LET l == Sc.l m == Sc.m[j] J == l[1] + l[2] + l[3] IN
   /\ WNum(Rot(l), Rot(m)) = WNum(l, m)
   /\ WNum(Swap(l), Swap(m)) = Sign(J) * WNum(l, m)
   /\ WNum(l, Neg(m)) = Sign(J) * WNum(l, m)
   /\ (m = Zero3 /\ ~NonVanishing(l)) => WNum(l, m) = 0
\* both evaluations agree and the squares of the symbols add up to one over 2L + 1
Small == (k = 1 /\ Sc.kind = "couple" /\ \A j \in 1..3 : Sc.l[j] <= 2) =>
   LET l == Sc.l
       V(m) == LET e == WExp(l, m)
                   RECURSIVE P(_)
                   P(q) == IF q = 0 THEN R(WNum(l, m) * WNum(l, m))
                           ELSE RMul(IF e[q] >= 0 THEN R(IPow(Primes[q], e[q])) ELSE <<1, IPow(Primes[q], -e[q])>>, P(q - 1))
               IN P(5)
   IN /\ \A m \in Orders(l) : V(m) = W2(l, m) /\ (WSign(l, m) = 0 <=> WNum(l, m) = 0) /\ WSign(l, m) * WNum(l, m) >= 0
      /\ Triangle(l[1], l[2], l[3]) => RSum({m \in Orders(l) : m[3] = 0}, [m \in Orders(l) |-> V(m)]) = <<1, 2 * l[3] + 1>>
\* a harmonic of order zero is real; the squares of one degree add up to one in every direction
Unsold == (k = 1 /\ Sc.kind = "ylm") => \A j \in DOMAIN Sc.v :
   /\ Sc.m = 0 => st.y[j].z[2] = 0
   /\ (Sc.l <= 3 /\ Sc.v[j] # Zero3) =>
        LET S == [m \in -Sc.l..Sc.l |-> LET z == YSolid(Sc.l, m, Sc.v[j]) p == Pref2(Sc.l, m) IN RMul(Red(p[1], p[2]), R(z[1] * z[1] + z[2] * z[2]))]
        IN RSum(-Sc.l..Sc.l, S) = R(IPow(4, Sc.l) * IPow(Norm2(Sc.v[j]), Sc.l))
\* powers of 1/x in front of sin x and cos x alternate
Square == Sc.kind = "order" => st.top = k * k
Parity == Sc.kind = "bessel" => \A j \in DOMAIN st.s : (st.s[j] # 0 => (j + k) % 2 = 1) /\ (st.c[j] # 0 => (j + k) % 2 = 0)
=============================================================================
