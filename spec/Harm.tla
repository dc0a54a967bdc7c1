-------------------------------- MODULE Harm --------------------------------
(* Reduced spherical harmonics y_lm = sqrt(4 pi/(2l+1)) conj(Y_lm) through  *)
(* solid harmonics: for an integer vector v, with k = |m|,                  *)
(*   |v|^l y_lm(v) = sqrt((l-k)!/(l+k)!) * YSolid(l, m, v) / 2^l            *)
(* with YSolid a Gaussian integer and y_{l,-m} = (-1)^m conj(y_lm).         *)
EXTENDS Integers, Sequences

GMul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
GConj(a) == <<a[1], -a[2]>>
GScale(n, a) == <<n*a[1], n*a[2]>>
RECURSIVE GPow(_, _)
GPow(a, n) == IF n = 0 THEN <<1, 0>> ELSE GMul(a, GPow(a, n - 1))
RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN 1 ELSE a * IPow(a, n - 1)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 THEN 1 ELSE (Binom(n - 1, k - 1) * n) \div k
RECURSIVE Falling(_, _)
Falling(n, m) == IF m = 0 THEN 1 ELSE n * Falling(n - 1, m - 1)
Norm2(v) == v[1]*v[1] + v[2]*v[2] + v[3]*v[3]

\* 2^l * |v|^(l-m) * P_l^(m)(v_z/|v|), from P_l(z) = 2^-l sum_k (-1)^k C(l,k) C(2l-2k,l) z^(l-2k)
LegD(l, m, z, r2) ==
  LET T(k) == IF l - 2*k - m < 0 THEN 0 ELSE
        (IF k % 2 = 0 THEN 1 ELSE -1) * Binom(l, k) * Binom(2*l - 2*k, l) * Falling(l - 2*k, m)
          * IPow(z, l - 2*k - m) * IPow(r2, k)
      RECURSIVE S(_)
      S(k) == IF 2*k > l THEN 0 ELSE T(k) + S(k + 1)
  IN S(0)
Solid0(l, m, v) == GScale((IF m % 2 = 0 THEN 1 ELSE -1) * LegD(l, m, v[3], Norm2(v)), GPow(<<v[1], v[2]>>, m))
Solid(l, m, v) == IF m >= 0 THEN Solid0(l, m, v)
                  ELSE GScale(IF m % 2 = 0 THEN 1 ELSE -1, GConj(Solid0(l, -m, v)))
YSolid(l, m, v) == GConj(Solid(l, m, v))
\* square of the irrational prefactor, as <<num, den>>
Pref2(l, m) == LET k == IF m < 0 THEN -m ELSE m IN <<Fact(l - k), Fact(l + k)>>
=============================================================================
