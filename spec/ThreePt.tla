------------------------------ MODULE ThreePt ------------------------------
(* Three-point statistics as direct triplet sums.  Stages: align the          *)
(* catalogues; paint the particles one at a time in any order; read out.      *)
(* A particle at x with line of sight n contributes to the pair of modes       *)
(* (k1,k2) its mode -(k1+k2) weighted by the invariant T(k1,k2,n) of           *)
(* Coupling: no spherical harmonic, mirror or selection-rule shortcut is       *)
(* involved.  W, W^2 and W^3 of the weighted fluctuation give the shot noise.  *)
EXTENDS MeshSum, Coupling, Json, IOUtils
Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES i, todo, acc, ps, stage, tab
vars == <<i, todo, acc, ps, stage, tab>>
s == Scen[i]
l == s.l

SumW(c) == LET RECURSIVE S(_)
               S(k) == IF k = 0 THEN 0 ELSE c[k].ws + S(k - 1)
           IN S(Len(c))
Alpha == LET g == Gcd(SumW(s.cat), SumW(s.ran)) IN <<SumW(s.cat) \div g, SumW(s.ran) \div g>>
WDen == IF s.kind = "survey" THEN Alpha[2] ELSE 1
Source ==
  CASE s.kind = "survey" ->
         LET a == Alpha ref == s.ran
             d == Place(s, ref, s.cat) r == Place(s, ref, s.ran)
         IN [k \in 1..(Len(d) + Len(r)) |->
               IF k <= Len(d) THEN [x |-> d[k].x, l |-> d[k].l, w |-> a[2] * d[k].ws * d[k].wc]
               ELSE LET p == r[k - Len(d)] IN [x |-> p.x, l |-> p.l, w |-> -(a[1] * p.ws * p.wc)]]
    [] s.kind = "window" ->
         LET r == Place(s, s.ran, s.ran) IN [k \in DOMAIN r |-> [x |-> r[k].x, l |-> r[k].l, w |-> r[k].ws * r[k].wc]]
    [] s.kind = "sim" ->
         LET d == Place(s, s.cat, s.cat) IN [k \in DOMAIN d |-> [x |-> d[k].x, l |-> <<0, 0, 1>>, w |-> 1]]

\* binned vectors in the metric c (modes of the bispectrum, separations of the 3PCF);
\* the other space has the metric d
Below(e, q) == e[1] * e[1] <= q * e[2] * e[2]
Vec(z) == Metric(s, Label(s, z))
Dual(z) == LET v == Label(s, z) IN <<v[1] * s.d[1], v[2] * s.d[2], v[3] * s.d[3]>>
InBin(j, z) == LET q == Norm2(Vec(z)) IN Below(s.e[j], q) /\ ~Below(s.e[j + 1], q)
NB == Len(s.e) - 1
BinSet(j) == {z \in Cells(s) : InBin(j, z)}
Want == UNION {BinSet(j) : j \in 1..NB}
Fourier == s.space = "fourier"
KVec(z) == IF Fourier THEN Vec(z) ELSE Dual(z)
RVec(z) == IF Fourier THEN Dual(z) ELSE Vec(z)
KSet == IF Fourier THEN Want ELSE Cells(s)
RSet == IF Fourier THEN Cells(s) ELSE Want
Pairs == KSet \X KSet
Closing(p) == <<(-(p[1][1] + p[2][1])) % s.n[1], (-(p[1][2] + p[2][2])) % s.n[2], (-(p[1][3] + p[2][3])) % s.n[3]>>
\* triplets of modes: closed ones, or all when the third field is multiplied by a power of the
\* distance in the box (wide-angle windows), which mixes modes
Triples == IF s.wa THEN KSet \X KSet \X Cells(s) ELSE {<<p[1], p[2], Closing(p)>> : p \in Pairs}
Open(t) == <<(t[1][1] + t[2][1] + t[3][1]) % s.n[1], (t[1][2] + t[2][2] + t[3][2]) % s.n[2], (t[1][3] + t[2][3] + t[3][3]) % s.n[3]>>

\* weights T of every particle for the pairs of modes and for the equal pairs of separations
TT(terms, p, u, v) == TGauss(l, terms, u, v, ps[p].l)
Tables(q) ==
  LET terms == TLCEval(TTerms(l))
      los == {q[p].l : p \in DOMAIN q}
      y1 == TLCEval([z \in KSet |-> TLCEval([m \in -l[1]..l[1] |-> YSolid(l[1], m, KVec(z))])])
      y2 == TLCEval([z \in KSet |-> TLCEval([m \in -l[2]..l[2] |-> YSolid(l[2], m, KVec(z))])])
      r1 == TLCEval([z \in RSet |-> TLCEval([m \in -l[1]..l[1] |-> YSolid(l[1], m, RVec(z))])])
      r2 == TLCEval([z \in RSet |-> TLCEval([m \in -l[2]..l[2] |-> YSolid(l[2], m, RVec(z))])])
      y3 == TLCEval([n \in los |-> TLCEval([m \in -l[3]..l[3] |-> YSolid(l[3], m, n)])])
      Sum3(a, b, c) == LET RECURSIVE A(_)
                           A(k) == IF k = 0 THEN <<0, 0>> ELSE
                              LET t == terms[k] x == GScale(t[4], GMul(GMul(a[t[1]], b[t[2]]), c[t[3]])) y == A(k - 1)
                              IN <<x[1] + y[1], x[2] + y[2]>>
                       IN A(Len(terms))
  IN [k |-> TLCEval([n \in los |-> TLCEval([p \in Pairs |-> Sum3(y1[p[1]], y2[p[2]], y3[n])])]),
      r |-> TLCEval([n \in los |-> TLCEval([z \in RSet |-> Sum3(r1[z], r2[z], y3[n])])])]
\* common factor of all the weights of the scenario
Content(t) ==
  LET RECURSIVE F(_, _, _)
      F(X, f, g) == IF X = {} \/ g = 1 THEN g ELSE LET e == CHOOSE e \in X : TRUE IN F(X \ {e}, f, Gcd(g, AbsI(f[e][1])))
      RECURSIVE A(_, _)
      A(L, g) == IF L = {} THEN g ELSE LET n == CHOOSE n \in L : TRUE IN A(L \ {n}, F(RSet, t.r[n], F(Pairs, t.k[n], g)))
  IN A(DOMAIN t.k, TDen(l))
Reduced(t) == LET g == TLCEval(Content(t)) IN
  [g |-> g,
   k |-> TLCEval([n \in DOMAIN t.k |-> TLCEval([p \in Pairs |-> t.k[n][p][1] \div g])]),
   r |-> TLCEval([n \in DOMAIN t.r |-> TLCEval([z \in RSet |-> t.r[n][z][1] \div g])]),
   real |-> \A n \in DOMAIN t.k : (\A p \in Pairs : t.k[n][p][2] = 0) /\ (\A z \in RSet : t.r[n][z][2] = 0)]

OneA == Fourier /\ l[2] = 0     \* shot noise of the second and third points coinciding
OneB == Fourier /\ l[1] = 0     \* ... of the first and third
Dummy == <<0, 0, 0>>
HSet == IF OneA \/ OneB THEN Want ELSE {}
Zero0 == [b |-> [z \in Cells(s) |-> CZero],            \* sum W phi
          n |-> [z \in Cells(s) |-> CZero],            \* sum W^2 phi
          g |-> [t \in Triples |-> CZero],             \* sum W T(k1,k2) phi(k3)
          x |-> [p \in RSet \X Cells(s) |-> CZero],    \* sum W T(r,r) phi(k)
          ha |-> [z \in HSet |-> CZero],               \* sum W^2 T(k,.) phi(k)
          hb |-> [z \in HSet |-> CZero],
          ta |-> [z \in HSet |-> 0], tb |-> [z \in HSet |-> 0],   \* sum W^3 T(k,.)
          s3 |-> [z \in RSet |-> 0],                   \* sum W^3 T(r,r)
          w3 |-> 0]
Pow2(w) == w * w
Paint(k) ==
  LET p == ps[k] f == TLCEval(Phi(s, p.x)) w == p.w w2 == w * w w3 == w2 * w
      tk == tab.k[p.l] tr == tab.r[p.l]
  IN [b |-> [z \in Cells(s) |-> CAdd(acc.b[z], CScale(w, f[z]))],
      n |-> [z \in Cells(s) |-> CAdd(acc.n[z], CScale(w2, f[z]))],
      g |-> [t \in Triples |-> LET v == tk[<<t[1], t[2]>>] IN IF v = 0 THEN acc.g[t] ELSE CAdd(acc.g[t], CScale(w * v, f[t[3]]))],
      x |-> [q \in RSet \X Cells(s) |-> IF tr[q[1]] = 0 THEN acc.x[q] ELSE CAdd(acc.x[q], CScale(w * tr[q[1]], f[q[2]]))],
      ha |-> [z \in HSet |-> IF OneA THEN CAdd(acc.ha[z], CScale(w2 * tk[<<z, z>>], f[z])) ELSE CZero],
      hb |-> [z \in HSet |-> IF OneB THEN CAdd(acc.hb[z], CScale(w2 * tk[<<z, z>>], f[z])) ELSE CZero],
      ta |-> [z \in HSet |-> IF OneA THEN acc.ta[z] + w3 * tk[<<z, z>>] ELSE 0],
      tb |-> [z \in HSet |-> IF OneB THEN acc.tb[z] + w3 * tk[<<z, z>>] ELSE 0],
      s3 |-> [z \in RSet |-> acc.s3[z] + w3 * tr[z]],
      w3 |-> acc.w3 + w3]
\* a box is compared with its mean density: the zero mode of the fluctuation is removed
Origin == <<0, 0, 0>>
MeanFree(u) ==
  IF s.kind # "sim" THEN u
  ELSE [u EXCEPT !.b[Origin] = CZero,
                 !.g = [t \in Triples |-> IF t[3] = Origin THEN CZero ELSE u.g[t]],
                 !.x = [p \in RSet \X Cells(s) |-> IF p[2] = Origin THEN CZero ELSE u.x[p]]]

Init == i \in DOMAIN Scen /\ stage = "raw" /\ ps = <<>> /\ todo = {} /\ acc = <<>> /\ tab = <<>>
Align == stage = "raw" /\ ps' = TLCEval(Source) /\ tab' = TLCEval(Reduced(TLCEval(Tables(ps')))) /\ todo' = DOMAIN ps'
         /\ acc' = TLCEval(Zero0) /\ stage' = "paint" /\ UNCHANGED i
Add(k) == acc' = TLCEval(Paint(k)) /\ todo' = todo \ {k} /\ UNCHANGED <<i, ps, stage, tab>>
AddAny == stage = "paint" /\ s.any /\ \E k \in todo : Add(k)
AddNext == stage = "paint" /\ ~s.any /\ todo # {} /\ Add(CHOOSE k \in todo : \A j \in todo : k <= j)
Close == stage = "paint" /\ todo = {} /\ acc' = TLCEval(MeanFree(acc)) /\ stage' = "done" /\ UNCHANGED <<i, ps, todo, tab>>
Next == Align \/ AddAny \/ AddNext \/ Close
Spec == Init /\ [][Next]_vars

\* -- read-out ----------------------------------------------------------------
Class(z) == LET v == Label(s, z) IN <<Abs(v[1]), Abs(v[2]), Abs(v[3])>>
RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET e == CHOOSE e \in X : TRUE IN <<e>> \o SeqOf(X \ {e})
SumC(f, D) == LET RECURSIVE S(_)
                  S(X) == IF X = {} THEN CZero ELSE LET e == CHOOSE e \in X : TRUE IN CAdd(f[e], S(X \ {e}))
              IN S(D)
\* triplets of modes, gathered by the classes sharing windows and lengths
Trip(t) == CMul(CMul(acc.b[t[1]], acc.b[t[2]]), acc.g[t])
TClass(t) == <<Class(t[1]), Class(t[2]), Class(t[3]), Open(t)>>
TTab == LET cl == TLCEval([t \in Triples |-> TClass(t)])
            f == TLCEval([t \in Triples |-> Trip(t)])
            cs == SeqOf({cl[t] : t \in Triples})
        IN [k \in DOMAIN cs |-> [c |-> cs[k], f |-> SumC(f, {t \in Triples : cl[t] = cs[k]})]]
\* two points on one particle: mode products seen from the separation r
XTab == LET rs == SeqOf(RSet)
            kc == TLCEval([z \in Cells(s) |-> Class(z)])
            cs == SeqOf({kc[z] : z \in Cells(s)})
            Part(r, c) == LET D == {z \in Cells(s) : kc[z] = c}
                              f == TLCEval([z \in D |-> CMulZ(CMul(acc.x[<<r, z>>], CConj(acc.n[z])), PhaseOf(s, z, r))])
                          IN SumC(f, D)
        IN [k \in DOMAIN rs |-> [v |-> Label(s, rs[k]), q |-> Norm2(RVec(rs[k])), s3 |-> acc.s3[rs[k]],
                                 f |-> [j \in DOMAIN cs |-> [c |-> cs[j], f |-> Part(rs[k], cs[j])]]]]
HTab == LET hs == SeqOf(HSet) IN
        [k \in DOMAIN hs |-> LET z == hs[k] IN [c |-> Class(z), q |-> Norm2(KVec(z)),
            a |-> IF OneA THEN CMul(acc.b[z], CConj(acc.ha[z])) ELSE CZero,
            b |-> IF OneB THEN CMul(acc.b[z], CConj(acc.hb[z])) ELSE CZero, ta |-> acc.ta[z], tb |-> acc.tb[z]]]
Bins == [j \in 1..NB |-> LET zs == SeqOf(BinSet(j)) IN [k \in DOMAIN zs |-> [c |-> Class(zs[k]), q |-> Norm2(Vec(zs[k]))]]]

\* entries of a requested form, as <<row, column>> bins, in order
Entries ==
  LET up == s.form = "full" /\ l[1] = l[2]
      Row(a, lo) == [k \in 1..(NB - lo + 1) |-> <<a, lo + k - 1>>]
      RECURSIVE Rows1(_)
      Rows1(a) == IF a > NB THEN <<>> ELSE Row(a, IF up THEN a ELSE 1) \o Rows1(a + 1)
      o == s.idx
  IN CASE s.form = "diag" -> [k \in 1..NB |-> <<k, k>>]
       [] s.form = "off-diag" -> IF o >= 0 THEN [k \in 1..(NB - o) |-> <<k, k + o>>] ELSE [k \in 1..(NB + o) |-> <<k - o, k>>]
       [] s.form = "row" -> Row(o + 1, 1)
       [] s.form = "full" -> Rows1(1)

Sin2(k, n) == CASE k = 0 -> RZero [] 2*k = n -> ROne [] n = 3 -> <<3, 4>> [] n = 4 -> <<1, 2>>
                [] n = 6 /\ k = 1 -> <<1, 4>> [] n = 6 /\ k = 2 -> <<3, 4>>
C1(p, x) == CASE p = 1 -> ROne
              [] p = 2 -> RSub(ROne, RMul(<<2, 3>>, x))
              [] p = 3 -> RAdd(RSub(ROne, x), RMul(<<2, 15>>, RMul(x, x)))
              [] p = 4 -> RSub(RAdd(RSub(ROne, RMul(<<4, 3>>, x)), RMul(<<2, 5>>, RMul(x, x))), RMul(<<4, 315>>, RMul(x, RMul(x, x))))
Corr(cl) == [a \in Ax |-> C1(s.p, Sin2(cl[a], s.n[a]))]
SumN(c) == LET RECURSIVE S(_)
               S(k) == IF k = 0 THEN 0 ELSE c[k].ws * Pow2(c[k].nz) * c[k].wc * c[k].wc * c[k].wc + S(k - 1)
           IN S(Len(c))
NormPart == CASE s.kind = "survey" -> <<Alpha[2], Alpha[1] * SumN(s.ran)>>
              [] s.kind = "window" -> <<1, SumN(s.ran)>>
              [] s.kind = "sim" -> <<1, SumN(s.cat)>>
Answer == [i |-> i, entries |-> Entries, bins |-> Bins, trip |-> TTab, x |-> XTab, h |-> HTab, w3 |-> acc.w3,
           mden |-> MDen(s), wden |-> WDen, tden |-> <<TDen(l), tab.g>>, norm |-> NormPart,
           corr |-> LET cs == SeqOf({Class(z) : z \in Cells(s)}) IN [k \in DOMAIN cs |-> <<cs[k], Corr(cs[k])>>]]
Emit == stage = "done" => PrintT(ToJson(Answer))

\* -- properties --------------------------------------------------------------
PlacedInside == stage = "paint" => Inside(s, ps)
Scalar == stage # "raw" => tab.real
\* exchanging the two modes exchanges the two degrees: symmetric weights when they are equal
Exchange == (stage = "done" /\ l[1] = l[2]) => \A t \in Triples : acc.g[t] = acc.g[<<t[2], t[1], t[3]>>]
\* a real field: reversing all modes conjugates (up to the parity of the third degree);
\* an even axis has modes that are their own reverse
Rev(z) == <<(-z[1]) % s.n[1], (-z[2]) % s.n[2], (-z[3]) % s.n[3]>>
Regular(z) == \A a \in Ax : 2 * z[a] # s.n[a]
Parity == (s.meta /\ stage = "done") => \A t \in Triples : (Regular(t[1]) /\ Regular(t[2])) =>
   LET q == <<Rev(t[1]), Rev(t[2]), Rev(t[3])>> IN Trip(q) = CScale(IF l[3] % 2 = 0 THEN 1 ELSE -1, CConj(Trip(t)))
\* both separations equal: T only depends on the angle to the line of sight
Collapse == (s.meta /\ stage = "paint") =>
   \A n \in DOMAIN tab.r : \A z, y \in RSet :
      LET u == RVec(z) v == RVec(y) IN
      tab.r[n][z] * LegI(l[3], v, n) * IPow(Norm2(v), (l[1] + l[2] - l[3]) \div 2)
      = tab.r[n][y] * LegI(l[3], u, n) * IPow(Norm2(u), (l[1] + l[2] - l[3]) \div 2)
OrderFree == (s.meta /\ stage = "paint" /\ todo = {}) => \A z \in Cells(s) :
   acc.b[z] = SumC([k \in DOMAIN ps |-> CScale(ps[k].w, Phi(s, ps[k].x)[z])], DOMAIN ps)
=============================================================================
