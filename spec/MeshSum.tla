------------------------------ MODULE MeshSum ------------------------------
(* What one particle contributes to the modes of a mesh: the transform of its *)
(* B-spline deposit, exact in Z[z24] over the deposit's denominator (twice it  *)
(* when interlacing, which averages the mesh with its half-cell-shifted copy). *)
EXTENDS Mesh, Cyc, Harm

Sg(k, n) == IF 2 * k < n THEN k ELSE k - n
Label(s, z) == <<Sg(z[1], s.n[1]), Sg(z[2], s.n[2]), Sg(z[3], s.n[3])>>
\* the metric of box s: the mesh unit of axis a is c[a] (wavenumber) units
Metric(s, v) == <<v[1] * s.c[1], v[2] * s.c[2], v[3] * s.c[3]>>
RECURSIVE Line(_, _, _, _)
Line(r, n, k, c) == IF c < 0 THEN CZero ELSE CAdd(CGauss(<<r[c], 0>>, -(24 \div n) * k * c), Line(r, n, k, c - 1))
\* an axis of one cell receives everything: its window is 1
Row1(s, x) == [a \in Ax |-> IF s.n[a] = 1 THEN [c \in 0..0 |-> 1] ELSE [c \in 0..s.n[a]-1 |-> Win(s.p, s.q[a], s.n[a], x[a], c)]]
Den1(s) == LET d(a) == IF s.n[a] = 1 THEN 1 ELSE KDen(s.p, s.q[a]) IN d(1) * d(2) * d(3)
Modes1(s, x) ==
  LET r == TLCEval(Row1(s, x))
      d(a) == TLCEval([k \in 0..(s.n[a] - 1) |-> Line(r[a], s.n[a], k, s.n[a] - 1)])
      d1 == d(1) d2 == d(2) d3 == d(3)
  IN TLCEval([z \in Cells(s) |-> CMul(CMul(d1[z[1]], d2[z[2]]), d3[z[3]])])
HalfP(s, z) == LET v == Label(s, z) IN (12 \div s.n[1]) * v[1] + (12 \div s.n[2]) * v[2] + (12 \div s.n[3]) * v[3]
Phi(s, x) ==
  IF ~s.inter THEN Modes1(s, x)
  ELSE LET a == Modes1(s, x) b == Modes1(s, Half(s, x))
       IN TLCEval([z \in Cells(s) |-> CAdd(a[z], CMulZ(b[z], HalfP(s, z)))])
MDen(s) == Den1(s) * IF s.inter THEN 2 ELSE 1
PhaseOf(s, z, x) == (24 \div s.n[1]) * z[1] * x[1] + (24 \div s.n[2]) * z[2] * x[2] + (24 \div s.n[3]) * z[3] * x[3]
\* 2^l |v|^l |w|^l P_l(cos of the angle between v and w); zero at the zero vector for l > 0
LegI(l, v, w) == LegD(l, 0, v[1]*w[1] + v[2]*w[2] + v[3]*w[3], Norm2(v) * Norm2(w))

\* -- box alignment of raw positions (sub-cell units) -------------------------
MinOf(ps, a) == CHOOSE m \in {ps[k].x[a] : k \in DOMAIN ps} : \A k \in DOMAIN ps : m <= ps[k].x[a]
MaxOf(ps, a) == CHOOSE m \in {ps[k].x[a] : k \in DOMAIN ps} : \A k \in DOMAIN ps : m >= ps[k].x[a]
\* (a box is centred on its particles before it is wrapped)
\* common shift moving the reference particles to the documented place in the box
Shift(s, ref) == [a \in Ax |->
   CASE s.align = "pad" -> s.pad[a] - MinOf(ref, a)
     [] s.align \in {"centre", "wrap"} -> (s.n[a] * s.q[a] - MinOf(ref, a) - MaxOf(ref, a)) \div 2
     [] OTHER -> 0]
Place(s, ref, ps) == LET t == TLCEval(Shift(s, ref)) IN
   TLCEval([k \in DOMAIN ps |-> [ps[k] EXCEPT !.x = [a \in Ax |->
       IF s.align = "wrap" THEN (ps[k].x[a] + t[a]) % (s.n[a] * s.q[a]) ELSE ps[k].x[a] + t[a]]]])
Inside(s, ps) == \A k \in DOMAIN ps : \A a \in Ax : ps[k].x[a] >= 0 /\ ps[k].x[a] <= s.n[a] * s.q[a]
=============================================================================
