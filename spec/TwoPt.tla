------------------------------- MODULE TwoPt -------------------------------
(* Two-point statistics of a catalogue pair, box or window, as direct sums.   *)
(* Stages: align the catalogues; paint the particles, one at a time in any     *)
(* order; read out the requested bins.  The multipole of degree l weights each *)
(* particle by the Legendre polynomial of the angle between its line of sight  *)
(* and the mode (or separation); no spherical harmonics are involved.          *)
(* All values are integers or elements of Z[z24] over the printed denominator. *)
EXTENDS MeshSum, Rat, Json, IOUtils
Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES i, todo, acc, ps, stage
vars == <<i, todo, acc, ps, stage>>
s == Scen[i]

\* the particles that enter, with integer weights over the denominator wd
SumW(c) == LET RECURSIVE T(_)
               T(k) == IF k = 0 THEN 0 ELSE c[k].ws + T(k - 1)
           IN T(Len(c))
Alpha == LET g == Gcd(SumW(s.cat), SumW(s.ran)) IN <<SumW(s.cat) \div g, SumW(s.ran) \div g>>
Survey == s.kind = "survey"
WDen == IF Survey THEN Alpha[2] ELSE 1
Source ==
  CASE s.kind = "survey" ->
         LET a == Alpha ref == s.ran
             d == Place(s, ref, s.cat) r == Place(s, ref, s.ran)
         IN [k \in 1..(Len(d) + Len(r)) |->
               IF k <= Len(d) THEN [x |-> d[k].x, l |-> d[k].l, w |-> a[2] * d[k].ws * d[k].wc]
               ELSE LET p == r[k - Len(d)] IN [x |-> p.x, l |-> p.l, w |-> -(a[1] * p.ws * p.wc)]]
    [] s.kind = "window" ->
         LET r == Place(s, s.ran, s.ran) IN [k \in DOMAIN r |-> [x |-> r[k].x, l |-> r[k].l, w |-> r[k].ws * r[k].wc]]
    [] s.kind = "sim" ->
         LET d == Place(s, s.cat, s.cat) IN [k \in DOMAIN d |-> [x |-> d[k].x, l |-> <<0, 0, 1>>, w |-> 1]]

\* vectors of the requested bins: edges are rational multiples of the metric unit
Below(e, q) == e[1] * e[1] <= q * e[2] * e[2]
Vec(z) == Metric(s, Label(s, z))
InBin(j, z) == LET q == Norm2(Vec(z)) IN Below(s.e[j], q) /\ ~Below(s.e[j + 1], q)
BinSet(j) == {z \in Cells(s) : InBin(j, z)}
Want == UNION {BinSet(j) : j \in 1..(Len(s.e) - 1)}
\* Fourier space needs the direction-weighted modes only at the mode itself,
\* configuration space at every separation wanted
Dirs == IF s.space = "fourier" THEN {<<z, z>> : z \in Want} ELSE Want \X Cells(s)

Zero0 == [a |-> [d \in Dirs |-> CZero], b |-> [z \in Cells(s) |-> CZero], sn |-> [z \in Want |-> 0]]
Paint(k) ==
  LET p == ps[k] f == TLCEval(Phi(s, p.x))
      g == TLCEval([z \in Want |-> p.w * LegI(s.L, Vec(z), p.l)])
  IN [a |-> [d \in Dirs |-> IF g[d[1]] = 0 THEN acc.a[d] ELSE CAdd(acc.a[d], CScale(g[d[1]], f[d[2]]))],
      b |-> [z \in Cells(s) |-> CAdd(acc.b[z], CScale(p.w, f[z]))],
      sn |-> [z \in Want |-> acc.sn[z] + p.w * g[z]]]
\* a box is compared with its mean density: its zero mode is removed
Origin == <<0, 0, 0>>
MeanFree(u) ==
  IF s.kind # "sim" THEN u
  ELSE [u EXCEPT !.b[Origin] = CZero,
                 !.a = [d \in Dirs |-> IF d[2] = Origin THEN CZero ELSE u.a[d]]]

Init == i \in DOMAIN Scen /\ stage = "raw" /\ ps = <<>> /\ todo = {} /\ acc = <<>>
Align == stage = "raw" /\ ps' = TLCEval(Source) /\ todo' = DOMAIN ps' /\ acc' = TLCEval(Zero0) /\ stage' = "paint" /\ UNCHANGED i
Add(k) == acc' = TLCEval(Paint(k)) /\ todo' = todo \ {k} /\ UNCHANGED <<i, ps, stage>>
AddAny == stage = "paint" /\ s.any /\ \E k \in todo : Add(k)
AddNext == stage = "paint" /\ ~s.any /\ todo # {} /\ Add(CHOOSE k \in todo : \A j \in todo : k <= j)
Close == stage = "paint" /\ todo = {} /\ acc' = TLCEval(MeanFree(acc)) /\ stage' = "done" /\ UNCHANGED <<i, ps, todo>>
Next == Align \/ AddAny \/ AddNext \/ Close
Spec == Init /\ [][Next]_vars

\* products per bin vector; in configuration space per class of modes sharing a correction
Class(z) == LET v == Label(s, z) IN <<Abs(v[1]), Abs(v[2]), Abs(v[3])>>
Classes == {Class(z) : z \in Cells(s)}
Prod(z) == CMul(acc.a[<<z, z>>], CConj(acc.b[z]))
SumC(f, D) == LET RECURSIVE T(_)
                  T(X) == IF X = {} THEN CZero ELSE LET e == CHOOSE e \in X : TRUE IN CAdd(f[e], T(X \ {e}))
              IN T(D)
PartC(r, cl) == LET D == {z \in Cells(s) : Class(z) = cl}
                    f == TLCEval([z \in D |-> CMulZ(CMul(acc.a[<<r, z>>], CConj(acc.b[z])), PhaseOf(s, z, r))])
                IN SumC(f, D)
RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET e == CHOOSE e \in X : TRUE IN <<e>> \o SeqOf(X \ {e})
Entry(z) == [v |-> Label(s, z), q |-> Norm2(Vec(z)), sn |-> acc.sn[z],
             f |-> IF s.space = "fourier" THEN <<[c |-> Class(z), f |-> Prod(z)]>>
                   ELSE LET cs == SeqOf(Classes) IN [k \in DOMAIN cs |-> [c |-> cs[k], f |-> PartC(z, cs[k])]]]
Bin(j) == LET zs == SeqOf(BinSet(j)) IN [k \in DOMAIN zs |-> Entry(zs[k])]
\* correction of one axis without interlacing: the aliased window squared, C1 (rational in sin^2)
Sin2(k, n) == CASE k = 0 -> RZero [] 2*k = n -> ROne [] n = 3 -> <<3, 4>> [] n = 4 -> <<1, 2>>
                [] n = 6 /\ k = 1 -> <<1, 4>> [] n = 6 /\ k = 2 -> <<3, 4>>
C1(p, x) == CASE p = 1 -> ROne
              [] p = 2 -> RSub(ROne, RMul(<<2, 3>>, x))
              [] p = 3 -> RAdd(RSub(ROne, x), RMul(<<2, 15>>, RMul(x, x)))
              [] p = 4 -> RSub(RAdd(RSub(ROne, RMul(<<4, 3>>, x)), RMul(<<2, 5>>, RMul(x, x))), RMul(<<4, 315>>, RMul(x, RMul(x, x))))
Corr(cl) == [a \in Ax |-> C1(s.p, Sin2(cl[a], s.n[a]))]
\* survey normalisation from particles, 1/(alpha sum ws nz wc^2), over nz's denominator
SumN(c) == LET RECURSIVE T(_)
               T(k) == IF k = 0 THEN 0 ELSE c[k].ws * c[k].wc * c[k].wc * c[k].nz + T(k - 1)
           IN T(Len(c))
NormPart == CASE s.kind = "survey" -> <<Alpha[2], Alpha[1] * SumN(s.ran)>>
              [] s.kind = "window" -> <<1, SumN(s.ran)>>
              [] s.kind = "sim" -> <<1, SumN(s.cat)>>
Answer == [i |-> i, bins |-> [j \in 1..(Len(s.e) - 1) |-> Bin(j)], mden |-> MDen(s), wden |-> WDen, norm |-> NormPart,
           corr |-> LET cs == SeqOf(Classes) IN [k \in DOMAIN cs |-> <<cs[k], Corr(cs[k])>>]]
Emit == stage = "done" => PrintT(ToJson(Answer))

\* -- properties --------------------------------------------------------------
PlacedInside == stage = "paint" => Inside(s, ps)
\* the painted sums are the direct sums, whatever the order of painting
RECURSIVE DirectB(_, _)
DirectB(z, k) == IF k = 0 THEN CZero ELSE CAdd(CScale(ps[k].w, Phi(s, ps[k].x)[z]), DirectB(z, k - 1))
OrderFree == (s.meta /\ stage = "paint" /\ todo = {}) => \A z \in Want : acc.b[z] = DirectB(z, Len(ps))
\* moving everything by one cell leaves every mode product as it was
RECURSIVE Moved(_, _, _)
Moved(z, k, leg) == IF k = 0 THEN CZero ELSE
   LET x == [ps[k].x EXCEPT ![1] = (ps[k].x[1] + s.q[1]) % (s.n[1] * s.q[1])] IN
   CAdd(CScale(ps[k].w * (IF leg THEN LegI(s.L, Vec(z), ps[k].l) ELSE 1), Phi(s, x)[z]), Moved(z, k - 1, leg))
Translation == (s.meta /\ stage = "done" /\ s.space = "fourier") =>
   \A z \in Want : ((z # Origin \/ s.kind # "sim") /\ (~s.inter \/ 2 * z[1] # s.n[1])) => Prod(z) = CMul(Moved(z, Len(ps), TRUE), CConj(Moved(z, Len(ps), FALSE)))
\* the monopole product is real
RealMonopole == (stage = "done" /\ s.space = "fourier" /\ s.L = 0) => \A z \in Want : Prod(z) = CConj(Prod(z))
\* with nearest-cell assignment the separation sum is the sum over pairs of particles
CellOf(x) == [a \in Ax |-> ((2 * x[a] + s.q[a]) \div (2 * s.q[a])) % s.n[a]]
PairSum(r) == LET RECURSIVE T(_, _)
                  T(a, b) == IF a = 0 THEN 0 ELSE IF b = 0 THEN T(a - 1, Len(ps)) ELSE
                     (IF \A x \in Ax : (CellOf(ps[a].x)[x] - CellOf(ps[b].x)[x] - r[x]) % s.n[x] = 0
                      THEN ps[a].w * ps[b].w * LegI(s.L, Vec(r), ps[a].l) ELSE 0) + T(a, b - 1)
              IN T(Len(ps), Len(ps))
Pairs == (stage = "done" /\ s.space = "config" /\ s.p = 1 /\ ~s.inter /\ s.kind # "sim") =>
   \A r \in Want : SumC([c \in Classes |-> PartC(r, c)], Classes)
                   = CScale(s.n[1] * s.n[2] * s.n[3], CGauss(<<PairSum(r), 0>>, 0))
=============================================================================
