-------------------------------- MODULE Cyc --------------------------------
(* Exact complex arithmetic in Z[z], z = exp(2 pi i / 24): every phase of a *)
(* mesh with 2, 3, 4, 6, 8 or 12 cells per axis (half-cell phases included  *)
(* for 2, 3, 4, 6) is a power of z.  Elements are integer 8-tuples in the   *)
(* basis 1..z^7 (z^8 = z^4 - 1), so equality of tuples is equality of       *)
(* numbers.                                                                 *)
EXTENDS Integers, Sequences, TLC

CZero == <<0, 0, 0, 0, 0, 0, 0, 0>>
Unit8(k) == [j \in 1..8 |-> IF j = k + 1 THEN 1 ELSE 0]
\* times z
CShift(a) == <<-a[8], a[1], a[2], a[3], a[4] + a[8], a[5], a[6], a[7]>>
ZPow == [e \in 0..23 |->
   IF e < 8 THEN Unit8(e)
   ELSE IF e < 12 THEN [j \in 1..8 |-> Unit8(e - 4)[j] - Unit8(e - 8)[j]]
   ELSE [j \in 1..8 |-> -(IF e - 12 < 8 THEN Unit8(e - 12)[j]
                          ELSE Unit8(e - 16)[j] - Unit8(e - 20)[j])]]
CPowers == TLCEval([e \in 0..23 |-> TLCEval(ZPow[e])])
CAdd(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3], a[4]+b[4], a[5]+b[5], a[6]+b[6], a[7]+b[7], a[8]+b[8]>>
CSub(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3], a[4]-b[4], a[5]-b[5], a[6]-b[6], a[7]-b[7], a[8]-b[8]>>
CScale(n, a) == <<n*a[1], n*a[2], n*a[3], n*a[4], n*a[5], n*a[6], n*a[7], n*a[8]>>
\* reduce 12 coefficients of 1..z^11
Red12(h) == <<h[1]-h[9], h[2]-h[10], h[3]-h[11], h[4]-h[12], h[5]+h[9], h[6]+h[10], h[7]+h[11], h[8]+h[12]>>
\* a times z^e
CMulZ(a, e0) ==
  LET e == e0 % 24
      s == IF e >= 12 THEN -1 ELSE 1
      k == e % 12
      \* positions k..k+7, those >= 12 come back with the other sign (z^12 = -1)
      h == [j \in 1..12 |-> LET p == j - 1 - k IN
              IF p >= 0 THEN (IF p <= 7 THEN s * a[p + 1] ELSE 0)
              ELSE (IF p + 12 <= 7 THEN -s * a[p + 13] ELSE 0)]
  IN Red12(h)
CConj(a) == CAdd(CAdd(CAdd(CScale(a[1], Unit8(0)), CScale(a[2], ZPow[23])), CAdd(CScale(a[3], ZPow[22]), CScale(a[4], ZPow[21]))),
                 CAdd(CAdd(CScale(a[5], ZPow[20]), CScale(a[6], ZPow[19])), CAdd(CScale(a[7], ZPow[18]), CScale(a[8], ZPow[17]))))
CMul(a, b) ==
  LET T(k) == IF a[k + 1] = 0 THEN CZero ELSE CScale(a[k + 1], CMulZ(b, k))
  IN CAdd(CAdd(CAdd(T(0), T(1)), CAdd(T(2), T(3))), CAdd(CAdd(T(4), T(5)), CAdd(T(6), T(7))))
\* Gaussian integer <<re, im>> times z^e
CGauss(w, e) == CAdd(IF w[1] = 0 THEN CZero ELSE CScale(w[1], CPowers[e % 24]),
                     IF w[2] = 0 THEN CZero ELSE CScale(w[2], CPowers[(e + 6) % 24]))
CMulG(w, a) == CAdd(CScale(w[1], a), IF w[2] = 0 THEN CZero ELSE CScale(w[2], CMulZ(a, 6)))
=============================================================================
