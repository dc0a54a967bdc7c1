------------------------------ MODULE FieldOps ------------------------------
(* One mesh field under construction, transform, compensation and inverse   *)
(* transform.  Values are in volume units (cell value times cell volume),   *)
(* exact over the common denominator den; modes are elements of Z[z24].     *)
EXTENDS Mesh, Cyc, Harm, Json, IOUtils
CONSTANT Depth

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES i, st, hist
vars == <<i, st, hist>>
s == Scen[i]

NMesh == s.n[1]*s.n[2]*s.n[3]
Cell(z) == <<z \div (s.n[2]*s.n[3]), (z \div s.n[3]) % s.n[2], z % s.n[3]>>
Sgn(c) == [a \in Ax |-> IF 2*c[a] < s.n[a] THEN c[a] ELSE c[a] - s.n[a]]

\* -- construction from particles ----------------------------------------
\* common denominator of the l-th harmonic of the line of sight
YDen(l) == IPow(2, l) * IPow(s.los, l)
Y(l, m, p) == YSolid(l, m, p.l)
RECURSIVE Put(_, _, _, _, _)
Put(f, ps, ws, half, k) ==
  IF k = 0 THEN f
  ELSE Put(TLCEval(Deposit(s, f, IF half THEN Half(s, ps[k].x) ELSE ps[k].x, ws[k])), ps, ws, half, k - 1)
Wts(ps, W(_)) == TLCEval([k \in DOMAIN ps |-> W(ps[k])])
Sum1(ps, W(_)) == LET ws == Wts(ps, W) IN
                  [f |-> Put(Zero(s), ps, ws, FALSE, Len(ps)),
                   g |-> IF s.inter THEN Put(Zero(s), ps, ws, TRUE, Len(ps)) ELSE <<>>]
Sum2(ps, qs, W(_), V(_)) ==
  LET a == Sum1(ps, W)
      vs == Wts(qs, V)
      add(u, half) == Put(u, qs, vs, half, Len(qs))
  IN [f |-> add(a.f, FALSE), g |-> IF s.inter THEN add(a.g, TRUE) ELSE <<>>]
w(p) == p.ws * p.wc
an == s.alpha[1]
ad == s.alpha[2]

Mk(fg, den) == [rep |-> "config", f |-> fg.f, g |-> fg.g, den |-> den, c |-> 0, fresh |-> TRUE, real |-> TRUE]
Build(op) ==
  LET k == op[1] l == op[2] m == op[3] IN
  CASE k = "assign" -> Mk(Sum1(s.cat, LAMBDA p : p.raw), Den(s))
    [] k = "unweighted" -> Mk(Sum1(s.cat, LAMBDA p : <<1, 0>>), Den(s))
    [] k = "fluct" ->
         LET u == Sum1(s.cat, LAMBDA p : <<NMesh, 0>>)
             sub(h) == [c \in Cells(s) |-> <<h[c][1] - Len(s.cat)*Den(s), h[c][2]>>]
         IN Mk([f |-> sub(u.f), g |-> IF s.inter THEN sub(u.g) ELSE <<>>], Den(s) * NMesh)
    [] k = "ylm1" -> Mk(Sum1(s.ran, LAMBDA p : GScale(an * w(p), Y(l, m, p))), Den(s) * YDen(l) * ad)
    [] k = "ylm2" -> Mk(Sum2(s.cat, s.ran, LAMBDA p : GScale(ad * w(p), Y(l, m, p)),
                             LAMBDA p : GScale(-an * w(p), Y(l, m, p))), Den(s) * YDen(l) * ad)
    [] k = "quad1" -> Mk(Sum1(s.ran, LAMBDA p : GScale(an * an * w(p) * w(p), GConj(Y(l, m, p)))),
                         Den(s) * YDen(l) * ad * ad)
    [] k = "quad2" -> Mk(Sum2(s.cat, s.ran, LAMBDA p : GScale(ad * ad * w(p) * w(p), GConj(Y(l, m, p))),
                             LAMBDA p : GScale(an * an * w(p) * w(p), GConj(Y(l, m, p)))),
                         Den(s) * YDen(l) * ad * ad)

\* -- transforms -----------------------------------------------------------
\* phase class of k.x: 24 * sum_a k_a x_a / n_a
Ph(k, x) == (24 \div s.n[1]) * k[1] * x[1] + (24 \div s.n[2]) * k[2] * x[2] + (24 \div s.n[3]) * k[3] * x[3]
HalfPh(k) == LET q == Sgn(k) IN
   (12 \div s.n[1]) * q[1] + (12 \div s.n[2]) * q[2] + (12 \div s.n[3]) * q[3]
RECURSIVE ModeSum(_, _, _)
ModeSum(h, k, z) == IF z < 0 THEN CZero
   ELSE LET x == Cell(z) IN CAdd(CGauss(h[x], -Ph(k, x)), ModeSum(h, k, z - 1))
Mode(h, k) == ModeSum(h, k, NMesh - 1)
Forward(u) ==
  IF s.inter
  THEN [u EXCEPT !.rep = "fourier", !.fresh = FALSE, !.den = 2 * u.den, !.g = <<>>,
        !.f = [k \in Cells(s) |-> CAdd(Mode(u.f, k), CMulZ(Mode(u.g, k), HalfPh(k)))]]
  ELSE [u EXCEPT !.rep = "fourier", !.fresh = FALSE, !.f = [k \in Cells(s) |-> Mode(u.f, k)]]
\* once transformed, the field is represented by its modes whichever side it is on
Back(u) == [u EXCEPT !.rep = "config"]
Again(u) == [u EXCEPT !.rep = "fourier"]
Comp(u) == [u EXCEPT !.c = u.c + 1]

Entry(op, u) == [op |-> op, rep |-> u.rep, fresh |-> u.fresh, den |-> u.den, c |-> u.c,
                 v |-> [z \in 1..NMesh |-> u.f[Cell(z - 1)]]]
Do(op, u) == st' = TLCEval(u) /\ hist' = Append(hist, Entry(op, st')) /\ UNCHANGED i

\* the constructions offered in this scenario
Builds == {s.builds[k] : k \in DOMAIN s.builds}
Init == /\ i \in DOMAIN Scen /\ st = [rep |-> "none"] /\ hist = <<>>
Room == Len(hist) < Depth
New == Room /\ st.rep # "fourier" /\ \E op \in Builds : Do(op, Build(op))
FFT == Room /\ (st.rep = "config" /\ st.fresh) /\ Do(<<"fft">>, Forward(st))
Inv == Room /\ st.rep = "fourier" /\ Do(<<"ifft">>, Back(st))
Fwd2 == Room /\ st.rep = "config" /\ ~st.fresh /\ ~s.inter /\ Do(<<"fft">>, Again(st))
Compensate == Room /\ st.rep = "fourier" /\ st.c < 2 /\ Do(<<"comp">>, Comp(st))
Next == New \/ FFT \/ Inv \/ Fwd2 \/ Compensate
Spec == Init /\ [][Next]_vars

Emit == (Len(hist) = Depth) => PrintT(ToJson([i |-> i, h |-> hist]))

\* -- properties of the specification ---------------------------------------
Origin == <<0, 0, 0>>
Modes == st.rep # "none" /\ ~st.fresh
First == IF Len(hist) = 0 THEN <<"">> ELSE
   LET B == {k \in DOMAIN hist : hist[k].op[1] \notin {"fft", "ifft", "comp"}} IN
   hist[CHOOSE k \in B : \A j \in B : j <= k].op
FluctZeroMode == (Modes /\ First[1] = "fluct") => st.f[Origin] = CZero
Neg(k) == [a \in Ax |-> (-k[a]) % s.n[a]]
NoNyq(k) == \A a \in Ax : 2*k[a] # s.n[a]
Hermitian == (Modes /\ First[1] \in {"fluct", "unweighted"}) =>
   \A k \in Cells(s) : (s.inter => NoNyq(k)) => st.f[Neg(k)] = CConj(st.f[k])
\* the exact inverse of the exact modes is the mesh that was transformed
RECURSIVE BackSum(_, _, _)
BackSum(F, x, z) == IF z < 0 THEN CZero
   ELSE LET k == Cell(z) IN CAdd(CMulZ(F[k], Ph(k, x)), BackSum(F, x, z - 1))
RoundTrip == [][ (st.rep = "config" /\ st.fresh /\ st'.rep = "fourier" /\ ~s.inter) =>
   \A x \in Cells(s) : BackSum(st'.f, x, NMesh - 1) = CScale(NMesh, CGauss(st.f[x], 0)) ]_vars
=============================================================================
