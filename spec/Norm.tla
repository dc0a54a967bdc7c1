-------------------------------- MODULE Norm --------------------------------
(* Normalisation factors of a catalogue pair.  Stages: fix the mesh (given, or *)
(* derived from the larger extent, the padding and the cell size); align; then  *)
(* the particles are counted one at a time in any order into the particle sums  *)
(* I2 = sum ws wc (nz wc), I3 = sum ws wc (nz wc)^2, the shot noise sum ws^2 wc^2, and into the meshes of the  *)
(* data and of the randoms; read out the volume integrals.                      *)
EXTENDS MeshSum, Rat, Json, IOUtils
Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES i, stage, geo, ps, todo, acc
vars == <<i, stage, geo, ps, todo, acc>>
s == Scen[i]
Span(c, a) == IF c = <<>> THEN 0 ELSE MaxOf(c, a) - MinOf(c, a)
MaxSpan == LET RECURSIVE M(_, _)
               M(c, a) == IF a = 0 THEN 0 ELSE MaxI(Span(c, a), M(c, a - 1))
           IN MaxI(M(s.cat, 3), M(s.ran, 3))
\* smallest even number of cells covering the padded extent
AutoN == LET d == s.padding[2] * s.q[1]
             k == ((s.padding[1] + s.padding[2]) * MaxSpan + d - 1) \div d
         IN k + (k % 2)
Auto == s.kind = "auto"
Pad(n) == [a \in Ax |-> IF s.padscale = "grid" THEN (s.factor[1] * s.q[a]) \div s.factor[2] ELSE (s.factor[1] * n[a] * s.q[a]) \div s.factor[2]]
Geo == LET n == IF Auto THEN <<AutoN, AutoN, AutoN>> ELSE s.n IN
       [n |-> n, q |-> s.q, p |-> s.p, align |-> s.align, pad |-> Pad(n)]
Mixed == s.kind \in {"auto", "mixed"}
Source == LET m == Geo ref == IF s.ran = <<>> THEN s.cat ELSE s.ran
              d == Place(m, ref, s.cat) r == Place(m, ref, s.ran)
              Tag(k) == IF k <= Len(d) THEN [p |-> d[k], f |-> 1] ELSE [p |-> r[k - Len(d)], f |-> 2]
          IN [k \in 1..(Len(d) + Len(r)) |-> Tag(k)]
W(p) == p.ws * p.wc
\* an axis of one cell receives everything
RowN(x) == [a \in Ax |-> [c \in 0..geo.n[a]-1 |-> IF geo.n[a] = 1 THEN KDen(geo.p, geo.q[a]) ELSE Win(geo.p, geo.q[a], geo.n[a], x[a], c)]]
Zero0 == LET z == [c \in Cells(geo) |-> 0] IN [m1 |-> z, m2 |-> z, i2 |-> 0, i3 |-> 0, sn |-> 0, tot |-> 0]
Put(f, p) == LET r == TLCEval(RowN(p.x)) IN [c \in Cells(geo) |-> f[c] + W(p) * r[1][c[1]] * r[2][c[2]] * r[3][c[3]]]
\* the randoms define the normalisation (the data in a box without randoms)
Counts(k) == s.ran = <<>> \/ ps[k].f = 2
Count(k) ==
  LET p == ps[k].p IN
  [m1 |-> IF ps[k].f = 1 /\ (Mixed \/ s.ran = <<>>) THEN Put(acc.m1, p) ELSE acc.m1,
   m2 |-> IF ps[k].f = 2 THEN Put(acc.m2, p) ELSE acc.m2,
   i2 |-> IF Counts(k) THEN acc.i2 + p.ws * p.nz * p.wc * p.wc ELSE acc.i2,
   i3 |-> IF Counts(k) THEN acc.i3 + p.ws * p.nz * p.nz * p.wc * p.wc * p.wc ELSE acc.i3,
   sn |-> IF Counts(k) THEN acc.sn + W(p) * W(p) ELSE acc.sn,
   tot |-> IF Counts(k) THEN acc.tot + W(p) ELSE acc.tot]
Init == i \in DOMAIN Scen /\ stage = "raw" /\ geo = <<>> /\ ps = <<>> /\ todo = {} /\ acc = <<>>
Fix == stage = "raw" /\ geo' = Geo /\ stage' = "align" /\ UNCHANGED <<i, ps, todo, acc>>
Align == stage = "align" /\ ps' = TLCEval(Source) /\ todo' = DOMAIN ps' /\ acc' = TLCEval(Zero0) /\ stage' = "count" /\ UNCHANGED <<i, geo>>
Add(k) == acc' = TLCEval(Count(k)) /\ todo' = todo \ {k} /\ UNCHANGED <<i, stage, geo, ps>>
AddAny == stage = "count" /\ s.any /\ \E k \in todo : Add(k)
AddNext == stage = "count" /\ ~s.any /\ todo # {} /\ Add(CHOOSE k \in todo : \A j \in todo : k <= j)
Close == stage = "count" /\ todo = {} /\ stage' = "done" /\ UNCHANGED <<i, geo, ps, todo, acc>>
Next == Fix \/ Align \/ AddAny \/ AddNext \/ Close
Spec == Init /\ [][Next]_vars

Sum(f) == SumSet(f, DOMAIN f)
D == Den(geo)
MeshOf == IF s.ran = <<>> THEN acc.m1 ELSE acc.m2
Cell2 == Sum([c \in Cells(geo) |-> MeshOf[c] * MeshOf[c]])
Cell3 == IF s.cube THEN Sum([c \in Cells(geo) |-> MeshOf[c] * MeshOf[c] * MeshOf[c]]) ELSE 0
Cell12 == Sum([c \in Cells(geo) |-> acc.m1[c] * acc.m2[c]])
\* particle integrals (in units of nz), and cell sums over D^2, D^3 (times the inverse powers of the cell volume)
Answer == [i |-> i, n |-> geo.n, i2 |-> acc.i2, i3 |-> acc.i3, sn |-> acc.sn, c2 |-> Cell2, c3 |-> Cell3, c12 |-> Cell12, den |-> D]
Emit == stage = "done" => PrintT(ToJson(Answer))
\* -- properties --------------------------------------------------------------
MassKept == stage = "done" => Sum(MeshOf) = D * acc.tot
\* cells hold at least the mean: sum of squares bounded below by Cauchy's inequality, above by all in one cell
Bounds == (stage = "done" /\ s.meta) =>
  LET t == D * acc.tot k == geo.n[1] * geo.n[2] * geo.n[3] IN (t * t) \div k <= Cell2 /\ Cell2 <= t * t
Derived == (stage # "raw" /\ Auto) => /\ geo.n[1] % 2 = 0
  /\ geo.n[1] * s.q[1] * s.padding[2] >= (s.padding[1] + s.padding[2]) * MaxSpan
  /\ (geo.n[1] - 2) * s.q[1] * s.padding[2] < (s.padding[1] + s.padding[2]) * MaxSpan
OrderFree == (stage = "done" /\ s.meta) => \A c \in Cells(geo) :
   MeshOf[c] = SumSet([k \in DOMAIN ps |-> IF Counts(k) THEN Put(Zero0.m1, ps[k].p)[c] ELSE 0], DOMAIN ps)
=============================================================================
