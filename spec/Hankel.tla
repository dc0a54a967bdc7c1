------------------------------- MODULE Hankel -------------------------------
(* Hankel-type transforms on logarithmically spaced samples, and resampling.   *)
(*                                                                             *)
(* kind "gauss": the functions                                                 *)
(*     (2 pi)^(p/2) i^s x^o y^o' G(w x, w y),                                   *)
(*     G(u, v) = u^l v^l' sum_ij c_ij u^(2i) v^(2j) exp(-(u^2 + v^2)/2)         *)
(* are closed under the (double) spherical Bessel transforms: c goes to its     *)
(* (generalised Laguerre) image, exactly, w to 1/w.  In one dimension c has one *)
(* row.  A behaviour transforms, scales, adds; the state is the exact function. *)
(*                                                                             *)
(* kind "disc": the transform of N samples is T(a)_n = sum_m c_(n+m) a_m with   *)
(* indices modulo N (without extrapolation) whatever the samples are, and the   *)
(* transform of opposite bias at the reciprocal points undoes it; the c are     *)
(* real apart from the phase (-i)^l or i^l of multipoles.  The state is          *)
(* the vector a and the side on which the samples are.                          *)
(*                                                                             *)
(* kind "resample": a spline of degree d through samples of a polynomial of     *)
(* degree at most d is that polynomial; the new points are equally spaced or in *)
(* a geometric progression between the same ends.                               *)
(*                                                                             *)
(* kind "size": sample counts, and which arguments are refused.                 *)
(*                                                                             *)
(* kind "ext": extrapolation lengthens each line of samples by one value at     *)
(* both ends until it has the size of the transform; values are integers or     *)
(* s 2^e as <<s, e>>.  The transform is that of the lengthened line, without    *)
(* the points that were added.                                                  *)
EXTENDS Gauss, Json, IOUtils, FiniteSets

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES i, k, f, hist
vars == <<i, k, f, hist>>
Sc == Scen[i]
Kind == Sc.kind

Dim == Len(Sc.ell)
SumEll == IF Dim = 1 THEN Sc.ell[1] ELSE Sc.ell[1] + Sc.ell[2]
\* (-i)^l one way, i^l the other
Phase(dir) == IF dir = 0 THEN 0 ELSE (IF dir = 1 THEN 3 * SumEll ELSE SumEll) % 4
Trans(x, op) == [c |-> Scaled(Image(x.c, Sc.ell), RPowZ(x.w, -3 * Dim)), w |-> RInv(x.w),
                 p |-> x.p + 3 * Dim - (IF op.dir = -1 THEN 6 * Dim ELSE 0),
                 s |-> (x.s + Phase(op.dir)) % 4, o |-> [a \in 1..Dim |-> -x.o[a]]]
\* a transform of bias q applies to functions of offset -q
Enabled(x, op) == \A a \in 1..Dim : x.o[a] = -op.q[a]

\* -- discrete structure -----------------------------------------------------
N == Len(Sc.a)
At(v, j) == v[(j % N) + 1]
DStep(x, op) ==
  CASE op.op = "t" -> [x EXCEPT !.side = 1]
    [] op.op = "inv" -> [x EXCEPT !.side = 0]
    [] op.op = "scale" -> [x EXCEPT !.a = [j \in 1..N |-> op.by * x.a[j]]]
    [] op.op = "add" -> [x EXCEPT !.a = [j \in 1..N |-> x.a[j] + op.v[j]]]
    \* moving the samples up by one is moving the transform down by one
    [] op.op = "shift" -> [x EXCEPT !.a = [j \in 1..N |-> At(x.a, j - 1 - (IF x.side = 0 THEN op.by ELSE -op.by))]]
\* n-th transformed sample: multiples of the N numbers c
Coef(x, n) == [q \in 1..N |-> At(x.a, (q - 1) - (n - 1))]

\* -- resampling -------------------------------------------------------------
Points(lo, hi, n, rule, ratio) ==
  [j \in 1..n |-> IF n = 1 THEN lo
                  ELSE IF rule = "lin" THEN RAdd(lo, RMul(RSub(hi, lo), Red(j - 1, n - 1)))
                  ELSE RMul(lo, RPow(ratio, j - 1))]
\* polynomial with integer coefficients: sum c[a][b] x^(a-1) y^(b-1)
Horner(co, x) == LET RECURSIVE H(_)
                     H(a) == IF a > Len(co) THEN RZero ELSE RAdd(co[a], RMul(x, H(a + 1)))
                 IN H(1)
Poly2(c, x, y) == Horner([a \in 1..Len(c) |-> Horner([b \in 1..Len(c[a]) |-> R(c[a][b])], y)], x)
NewPts(a) == Points(Sc.x[a][1], Sc.x[a][Len(Sc.x[a])], Sc.n[a], Sc.rule, Sc.ratio[a])
Resampled == IF Len(Sc.x) = 1
             THEN <<[b \in 1..Sc.n[1] |-> Poly2(<<Sc.c[1]>>, RZero, NewPts(1)[b])]>>
             ELSE [a \in 1..Sc.n[1] |-> [b \in 1..Sc.n[2] |-> Poly2(Sc.c, NewPts(1)[a], NewPts(2)[b])]]

\* -- sizes ------------------------------------------------------------------
RECURSIVE Pow2(_, _)
Pow2(a, b) == IF a * Sc.den >= b THEN a ELSE Pow2(2 * a, b)
SizeOf == IF Sc.extrap = 0 THEN Sc.n ELSE Pow2(1, Sc.num * Sc.n)
Refused == \/ Sc.extrap \notin 0..5
           \/ Sc.extrap # 0 /\ Sc.n % 2 = 1
           \/ Sc.extrap # 0 /\ Sc.layer = "none"
           \/ ~Sc.log
           \/ Sc.len # Sc.n
           \/ ~Sc.dirok
           \/ ~Sc.lowring /\ Sc.pivot <= 0

\* -- lengthened lines ------------------------------------------------------
Powers == Sc.extrap \in {4, 5}
Cont(a, b) == CASE Sc.extrap = 1 -> 0
                [] Sc.extrap = 2 -> a
                [] Sc.extrap = 3 -> 2 * a - b
                [] OTHER -> <<a[1], 2 * a[2] - b[2]>>
Longer(v) == <<Cont(v[1], v[2])>> \o v \o <<Cont(v[Len(v)], v[Len(v) - 1])>>

\* -- machine ----------------------------------------------------------------
Start == CASE Kind = "gauss" -> [c |-> Sc.c, w |-> Sc.w, p |-> 0, s |-> 0, o |-> Sc.o]
           [] Kind = "disc" -> [a |-> Sc.a, side |-> 0]
           [] Kind = "ext" -> [line |-> Sc.line]
           [] OTHER -> [z |-> 0]
Init == /\ i \in DOMAIN Scen /\ k = 0 /\ f = Start /\ hist = <<>>
Ops == IF Kind \in {"gauss", "disc"} THEN Sc.ops ELSE <<>>
Op == Sc.ops[k + 1]
Transform == /\ Kind = "gauss" /\ k < Len(Ops) /\ Op.op = "t" /\ Enabled(f, Op)
             /\ f' = Trans(f, Op)
             /\ k' = k + 1 /\ hist' = Append(hist, f') /\ UNCHANGED i
Scale == /\ Kind = "gauss" /\ k < Len(Ops) /\ Op.op = "scale"
         /\ f' = [f EXCEPT !.c = Scaled(f.c, R(Op.by))]
         /\ k' = k + 1 /\ hist' = Append(hist, f') /\ UNCHANGED i
Add == /\ Kind = "gauss" /\ k < Len(Ops) /\ Op.op = "add"
       /\ f' = [f EXCEPT !.c = Plus(f.c, Op.c)]
       /\ k' = k + 1 /\ hist' = Append(hist, f') /\ UNCHANGED i
Disc == /\ Kind = "disc" /\ k < Len(Ops)
        /\ f' = DStep(f, Op)
        /\ k' = k + 1 /\ hist' = Append(hist, f') /\ UNCHANGED i
\* a power law changes sign nowhere
Legal == Powers => \A a \in DOMAIN f.line : \A j \in DOMAIN f.line[a] : f.line[a][j][1] = f.line[a][1][1] /\ f.line[a][j][1] # 0
Lengthen == /\ Kind = "ext" /\ Legal /\ Len(f.line[1]) < SizeOf
            /\ f' = [f EXCEPT !.line = [a \in DOMAIN f.line |-> Longer(f.line[a])]]
            /\ k' = k + 1 /\ UNCHANGED <<i, hist>>
Next == Lengthen \/ Transform \/ Scale \/ Add \/ Disc
Spec == Init /\ [][Next]_vars

Done == IF Kind = "ext" THEN ~ENABLED Lengthen ELSE k = Len(Ops)
\* the samples stay in the middle of the line
Middle == Kind = "ext" => \A a \in DOMAIN f.line : SubSeq(f.line[a], k + 1, k + Sc.n) = Sc.line[a] /\ Len(f.line[a]) = Sc.n + 2 * k
Whole == (Kind = "ext" /\ Done /\ Legal) => Len(f.line[1]) = SizeOf
\* a straight line (a power law) stays one
Straight == (Kind = "ext" /\ Done /\ Legal /\ Sc.extrap \in 3..4) => \A a \in DOMAIN f.line :
            LET v == f.line[a]
                d(j) == IF Powers THEN v[j + 1][2] - v[j][2] ELSE v[j + 1] - v[j]
            IN /\ \A j \in 1..k : d(j) = d(k + 1)
               /\ \A j \in (k + Sc.n)..(Len(v) - 1) : d(j) = d(k + Sc.n - 1)
\* every behaviour runs to its end
Runs == (~Done /\ Kind = "gauss") => (Op.op = "t" => Enabled(f, Op))
Before(n) == IF n = 0 THEN Start ELSE hist[n]
\* a pair of opposite transforms (or of the same plain one) is the identity
TwoWay == (k >= 2 /\ Kind = "gauss") =>
  LET a == Sc.ops[k - 1]
      b == Sc.ops[k]
      x == Before(k - 2)
  IN (a.op = "t" /\ b.op = "t") =>
     /\ f.c = x.c /\ f.w = x.w /\ f.o = x.o
     /\ (a.dir * b.dir = -1) => (f.p = x.p /\ f.s = x.s)
     /\ (a.dir = 0 /\ b.dir = 0) => (f.p = x.p + 6 * Dim)
\* the total of the samples' weights over the transform is conserved by shifts
DKept == (Kind = "disc" /\ k >= 1) =>
         (Sc.ops[k].op \in {"t", "inv"} => f.a = Before(k - 1).a)
Ends == (Kind = "resample") =>
        \A a \in 1..Len(Sc.x) : Sc.n[a] > 1 => /\ NewPts(a)[1] = Sc.x[a][1]
                                               /\ NewPts(a)[Sc.n[a]] = Sc.x[a][Len(Sc.x[a])]
Grows == (Kind = "size" /\ ~Refused) => SizeOf >= Sc.n

Out == CASE Kind = "gauss" -> [i |-> i, h |-> hist]
         [] Kind = "disc" -> [i |-> i, h |-> [n \in 1..Len(hist) |->
               [side |-> hist[n].side, a |-> hist[n].a,
                co |-> IF hist[n].side = 1 /\ Sc.hankel THEN [m \in 1..N |-> Coef(hist[n], m)] ELSE <<>>]]]
         [] Kind = "resample" -> [i |-> i, x |-> [a \in 1..Len(Sc.x) |-> NewPts(a)], m |-> Resampled]
         [] Kind = "ext" -> [i |-> i, ok |-> Legal, line |-> f.line, n |-> k]
         [] Kind = "size" -> [i |-> i, ok |-> ~Refused, size |-> IF Refused THEN 0 ELSE SizeOf]
Emit == Done => PrintT(ToJson(Out))
=============================================================================
