------------------------------ MODULE WinConv ------------------------------
(* Window convolution.                                                         *)
(*                                                                             *)
(* kind "conf" (configuration space): window and model multipoles are           *)
(* polynomials, of one separation, of two, or of the diagonal of two.  The      *)
(* windowed multipole l is the sum over the terms (q, z, c) of its formula of   *)
(* c Q_q Z_z, the model multipole "ic" being the integral constraint, a number  *)
(* given or computed.  A behaviour changes the model (scale, add) and           *)
(* convolves; each convolution depends on the present model only.               *)
(* Configurations that lack what the formulae need are refused.                 *)
(*                                                                             *)
(* kind "harm" (Fourier space): the model multipoles are in the family of       *)
(* Gauss.tla, the window is a polynomial which keeps the product there, and the *)
(* windowed spectrum is the transform of the windowed correlation function.     *)
(*                                                                             *)
(* kind "ic": the integral constraint itself.                                  *)
(*                                                                             *)
(* kind "place": where samples are in the columns and rows of the matrix.       *)
(*                                                                             *)
(* kind "split": processes that generate the matrix together.  The log of each  *)
(* is the columns it computes, in order; every column belongs to exactly one    *)
(* process, and the root assembles the parts in rank order.                     *)
EXTENDS Coupling, Gauss, Json, IOUtils

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES i, k, m, hist, pc, done, got
vars == <<i, k, m, hist, pc, done, got>>
Sc == Scen[i]
Kind == Sc.kind
IC == <<-1>>
Mono == <<0, 0, 0>>
SetOf(s) == {s[x] : x \in DOMAIN s}
\* association lists: sequences of records with a key l
Keys(s) == {s[x].l : x \in DOMAIN s}
Get(s, l) == s[CHOOSE x \in DOMAIN s : s[x].l = l]

\* -- order of multipoles ----------------------------------------------------
Less(a, b) == LET n == Len(a) key(x) == <<x[n]>> \o SubSeq(x, 1, n - 1) IN
              \E j \in 1..n : key(a)[j] < key(b)[j] /\ \A x \in 1..(j - 1) : key(a)[x] = key(b)[x]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : \A b \in S \ {a} : Less(a, b) IN <<a>> \o Sorted(S \ {a})

\* -- polynomials: rows of rational coefficients ------------------------------
Horner(co, x) == LET RECURSIVE H(_)
                     H(a) == IF a > Len(co) THEN RZero ELSE RAdd(co[a], RMul(x, H(a + 1)))
                 IN H(1)
Val(c, x, y) == Horner([a \in 1..Len(c) |-> Horner(c[a], y)], x)
\* sum of pointwise products, as a polynomial
Prod(c, d) == TLCEval([a \in 1..(Len(c) + Len(d) - 1) |-> [b \in 1..(Len(c[1]) + Len(d[1]) - 1) |->
   LET S == {p \in (1..Len(c)) \X (1..Len(c[1])) : a - p[1] + 1 \in 1..Len(d) /\ b - p[2] + 1 \in 1..Len(d[1])}
       g == [p \in S |-> RMul(c[p[1]][p[2]], d[a - p[1] + 1][b - p[2] + 1])]
   IN RSum(S, g)]])
\* integral of x^(n + 2) between the ends
Power(n, e) == RMul(RSub(RPow(e[2], n + 3), RPow(e[1], n + 3)), <<1, n + 3>>)
Integral(c, e) == LET S == (1..Len(c)) \X (1..Len(c[1]))
                      g == [p \in S |-> IF c[p[1]][p[2]] = RZero THEN RZero ELSE RMul(c[p[1]][p[2]], RMul(Power(p[1] - 1, e), Power(p[2] - 1, e)))]
                  IN RSum(S, g)
Weight(l) == RMul(R(Deg(l)), W2(l, Zero3))
\* ratio of the weighted integral of window times model to that of the window
Constraint(q, z, ends(_), common) ==
  RDiv(RSum(common, [l \in common |-> RMul(Weight(l), Integral(Prod(Get(q, l).c, Get(z, l).c), ends(l)))]),
       Integral(Get(q, Mono).c, ends(Mono)))

\* -- formulae ---------------------------------------------------------------
TermsOf(x) == Sc.entries[x].terms
AllTerms == UNION {SetOf(TermsOf(x)) : x \in DOMAIN Sc.entries}
Ls == {Sc.entries[x].l : x \in DOMAIN Sc.entries}
NeedQ == {t.q : t \in AllTerms}
NeedZ == {t.z : t \in AllTerms} \ {IC}
HasIC == \E t \in AllTerms : t.z = IC
Coef(t) == Red(t.c[1], t.c[2])

\* -- configuration space ----------------------------------------------------
InKeys == IF Sc.rin = "one" THEN NeedZ ELSE SetOf(Sc.zk)
OutKeys == CASE Sc.rout = "none" -> InKeys [] Sc.rout = "one" -> Ls [] OTHER -> Keys(Sc.pts)
Refused == \/ NeedZ = {}
           \/ ~(NeedQ \subseteq SetOf(Sc.qs))
           \/ ~(NeedQ \subseteq SetOf(Sc.qr))
           \/ ~(NeedZ \subseteq InKeys)
           \/ ~(Ls \subseteq OutKeys)
Points(l) == Get(Sc.pts, l).r
\* the points lie within the samples
Within(l, ends) == \A x \in DOMAIN Points(l) : RLe(ends[1], Points(l)[x]) /\ RLe(Points(l)[x], ends[2])
Uncovered(l, w) == \E t \in SetOf(Get(Sc.entries, l).terms) :
  IF w THEN ~Within(l, Get(Sc.q, t.q).e) ELSE t.z # IC /\ ~Within(l, Get(Sc.z, t.z).e)
\* values are the formula's where all that enters is within the samples
Sure(l, x) == \A t \in SetOf(Get(Sc.entries, l).terms) :
  LET p == Points(l)[x] in(e) == RLe(e[1], p) /\ RLe(p, e[2])
  IN in(Get(Sc.q, t.q).e) /\ (t.z # IC => in(Get(Sc.z, t.z).e))
\* an integral constraint can be computed where the monopoles are known
Common == SetOf(Sc.qs) \cap Keys(m)
Given(op) == op.ic # <<>>
NoIC(op) == HasIC /\ ~Given(op) /\ (Sc.dim # 2 \/ Mono \notin Common)
ICOf(op) == IF ~HasIC THEN RZero
            ELSE IF Given(op) THEN op.ic
            ELSE LET e(l) == Get(Sc.z, l).e IN Constraint(Sc.q, m, e, Common)
Cell(ts, x, y, ic) ==
  RSumSeq([n \in 1..Len(ts) |-> RMul(Coef(ts[n]), RMul(Val(Get(Sc.q, ts[n].q).c, x, y),
                                                      IF ts[n].z = IC THEN ic ELSE Val(Get(m, ts[n].z).c, x, y)))])
\* one separation; the diagonal of two; all pairs
Windowed(l, ic) ==
  LET r == Points(l)
      ts == Get(Sc.entries, l).terms
      one(x) == IF Sc.dim = 1 THEN Cell(ts, RZero, x, ic) ELSE Cell(ts, x, x, ic)
  IN [a \in 1..(IF Sc.dim = 2 THEN Len(r) ELSE 1) |-> [b \in 1..Len(r) |->
        IF ~Sure(l, b) \/ (Sc.dim = 2 /\ ~Sure(l, a)) THEN <<0, 0>>
        ELSE IF Sc.dim = 2 THEN Cell(ts, r[a], r[b], ic) ELSE one(r[b])]]
ConfOut(op) == IF NoIC(op) THEN [ok |-> FALSE]
               ELSE LET ic == TLCEval(ICOf(op)) ls == Sorted(Ls)
                    IN [ok |-> TRUE, l |-> ls, v |-> [n \in 1..Len(ls) |-> Windowed(ls[n], ic)]]

\* -- Fourier space ----------------------------------------------------------
Dim == Sc.dim
Ell(l) == IF Dim = 1 THEN <<l[1]>> ELSE <<l[1], l[2]>>
Total(l) == IF Dim = 1 THEN l[1] ELSE l[1] + l[2]
NB == Sc.nb
\* the product of the window and the family of z in the family of l; in units of w
Base(l, a) == IF Dim = 1 THEN (IF a = 1 THEN 0 ELSE l[1]) ELSE l[a]
Times(q, c, z, l) ==
  LET wp(n) == RPowZ(Sc.w, n)
      R1 == IF Dim = 1 THEN 1..1 ELSE 1..NB
      S(x, y) == {s \in (1..Len(q)) \X (1..Len(q[1])) \X (1..Len(c)) \X (1..Len(c[1])) :
                    /\ (s[1] - 1) + Base(z, 1) + 2 * (s[3] - 1) = Base(l, 1) + 2 * (x - 1)
                    /\ (s[2] - 1) + Base(z, 2) + 2 * (s[4] - 1) = Base(l, 2) + 2 * (y - 1)}
      g(x, y) == [s \in S(x, y) |-> RMul(RMul(q[s[1]][s[2]], c[s[3]][s[4]]), wp(s[1] + s[2] - 2))]
  IN TLCEval([x \in R1 |-> [y \in 1..NB |-> RSum(S(x, y), TLCEval(g(x, y)))]])
\* nothing of the product is outside the family
Stays(q, c, z, l) == \A s \in (1..Len(q)) \X (1..Len(q[1])) \X (1..Len(c)) \X (1..Len(c[1])) :
  (q[s[1]][s[2]] # RZero /\ c[s[3]][s[4]] # RZero) =>
    LET d(a, t, j) == t - 1 + Base(z, a) + 2 * (j - 1) - Base(l, a)
    IN /\ d(1, s[1], s[3]) \in {2 * x : x \in 0..(NB - 1)} /\ d(2, s[2], s[4]) \in {2 * x : x \in 0..(NB - 1)}
\* the correlation function is real: an even number of factors i
Phase(z) == (Get(m, z).s + Total(z)) % 4
Zeroes == [x \in 1..(IF Dim = 1 THEN 1 ELSE NB) |-> [y \in 1..NB |-> RZero]]
RECURSIVE PlusAll(_, _)
PlusAll(g, n) == IF n = 0 THEN Zeroes ELSE Plus(g[n], PlusAll(g, n - 1))
Pole(l) ==
  LET ts == Get(Sc.entries, l).terms
      term(t) == LET x == Get(m, t.z) IN
                 Scaled(Image(Times(Get(Sc.q, t.q).c, Image(x.c, Ell(t.z)), t.z, l), Ell(l)),
                        RMul(Coef(t), R(IF Phase(t.z) = 0 THEN 1 ELSE -1)))
      parts == TLCEval([n \in 1..Len(ts) |-> term(ts[n])])
  IN [l |-> l, c |-> PlusAll(parts, Len(ts)), s |-> (3 * Total(l)) % 4, parts |-> parts]
HarmOut == LET ls == Sorted(Ls) IN [n \in 1..Len(ls) |-> Pole(ls[n])]
HarmLegal == Kind = "harm" => \A t \in AllTerms : Get(m, t.z).s \in 0..3 /\ Phase(t.z) \in {0, 2}
HarmStays == (Kind = "harm" /\ k = 0) => \A x \in DOMAIN Sc.entries : \A t \in SetOf(TermsOf(x)) :
                Stays(Get(Sc.q, t.q).c, Image(Get(m, t.z).c, Ell(t.z)), t.z, Sc.entries[x].l)

\* -- the model --------------------------------------------------------------
Ops == IF Kind \in {"conf", "harm"} /\ (Kind = "conf" => ~Refused) THEN Sc.ops ELSE <<>>
Op == Ops[k + 1]
Rest == UNCHANGED <<i, pc, done, got>>
Convolve == /\ k < Len(Ops) /\ Op.op = "conv"
            /\ hist' = Append(hist, IF Kind = "conf" THEN ConfOut(Op) ELSE [ok |-> TRUE, p |-> HarmOut])
            /\ k' = k + 1 /\ UNCHANGED m /\ Rest
Scale == /\ k < Len(Ops) /\ Op.op = "scale"
         /\ m' = [n \in DOMAIN m |-> [m[n] EXCEPT !.c = Scaled(m[n].c, R(Op.by))]]
         /\ k' = k + 1 /\ UNCHANGED hist /\ Rest
Add == /\ k < Len(Ops) /\ Op.op = "add"
       /\ m' = [n \in DOMAIN m |-> [m[n] EXCEPT !.c = Plus(m[n].c, Get(Op.m, m[n].l).c)]]
       /\ k' = k + 1 /\ UNCHANGED hist /\ Rest

\* -- matrix generation ------------------------------------------------------
Split == Kind = "split"
Procs == 1..Sc.np
\* a process computes its next column: it must be nobody's yet
Compute(p) == /\ Split /\ pc[p] < Len(Sc.log[p])
              /\ LET c == Sc.log[p][pc[p] + 1] IN c \in 1..Sc.n /\ c \notin done /\ done' = done \cup {c}
              /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED <<i, k, m, hist, got>>
\* when all are through, the root receives the parts in rank order
Through == \A p \in Procs : pc[p] = Len(Sc.log[p])
Gather == /\ Split /\ Through /\ Len(got) < Sc.np
          /\ got' = Append(got, Sc.log[Len(got) + 1])
          /\ UNCHANGED <<i, k, m, hist, pc, done>>
RECURSIVE Flat(_, _)
Flat(s, n) == IF n = 0 THEN <<>> ELSE Flat(s, n - 1) \o s[n]

Init == /\ i \in DOMAIN Scen /\ k = 0 /\ hist = <<>>
        /\ m = (IF Kind \in {"conf", "harm"} THEN Sc.m ELSE <<>>)
        /\ pc = (IF Kind = "split" THEN [p \in 1..Sc.np |-> 0] ELSE <<>>)
        /\ done = {} /\ got = <<>>
Next == Convolve \/ Scale \/ Add \/ Gather \/ (Split /\ \E p \in Procs : (\A x \in 1..(p - 1) : Sc.free \/ pc[x] = Len(Sc.log[x])) /\ Compute(p))
Spec == Init /\ [][Next]_vars

\* a process that would compute a column again stops: the run is not a behaviour
Done == IF Split THEN (Len(got) = Sc.np \/ ((\A p \in Procs : ~ENABLED Compute(p)) /\ ~Through)) ELSE k = Len(Ops)
Whole == Split /\ Len(got) = Sc.np /\ done = 1..Sc.n
InOrder == Flat(got, Len(got)) = [c \in 1..Sc.n |-> c]
\* each convolution is that of the present model: linear, and not influenced by others
Linear == (Kind = "conf" /\ k >= 2 /\ ~HasIC) =>
  (k < 2 \/ Ops[k].op # "scale" \/ Ops[k - 1].op # "conv" \/
     LET h == hist[Len(hist)] IN \A n \in DOMAIN h.v : LET w == Windowed(h.l[n], RZero) IN
       \A a \in DOMAIN h.v[n] : \A b \in DOMAIN h.v[n][a] :
         w[a][b] = (IF h.v[n][a][b] = <<0, 0>> THEN <<0, 0>> ELSE RMul(R(Ops[k].by), h.v[n][a][b])))
\* numbering of columns: multipoles in order, then the pairs row by row
Columns(zs, n, z, a, b) == LET S == {y \in zs : Less(y, z)} IN
   LET RECURSIVE Sz(_)
       Sz(X) == IF X = {} THEN 0 ELSE LET y == CHOOSE y \in X : TRUE IN Get(n, y).n * Get(n, y).n + Sz(X \ {y})
   IN Sz(S) + (a - 1) * Get(n, z).n + b
RowOf(l, a, b, nk, diag, concat) ==
   LET per == IF diag THEN nk ELSE nk * nk
       own == IF diag THEN a ELSE (a - 1) * nk + b
   IN IF concat THEN Cardinality({y \in Ls : Less(y, l)}) * per + own ELSE own
PlaceOut == [i |-> i, col |-> [n \in DOMAIN Sc.ask |-> Columns(NeedZ, Sc.size, Sc.ask[n].z, Sc.ask[n].a, Sc.ask[n].b)],
             row |-> [n \in DOMAIN Sc.ask |-> RowOf(Sc.ask[n].l, Sc.ask[n].x, Sc.ask[n].y, Sc.nk, Sc.diag, Sc.concat)],
             shape |-> <<(IF Sc.concat THEN Cardinality(Ls) ELSE 1) * (IF Sc.diag THEN Sc.nk ELSE Sc.nk * Sc.nk),
                         LET RECURSIVE Sz(_)
                             Sz(X) == IF X = {} THEN 0 ELSE LET y == CHOOSE y \in X : TRUE IN Get(Sc.size, y).n * Get(Sc.size, y).n + Sz(X \ {y})
                         IN Sz(NeedZ)>>]
\* columns are numbered without gap or overlap
OneToOne == (Kind = "place") =>
  LET P == UNION {{<<z, a, b>> : a \in 1..Get(Sc.size, z).n, b \in 1..Get(Sc.size, z).n} : z \in NeedZ}
  IN {Columns(NeedZ, Sc.size, p[1], p[2], p[3]) : p \in P} = 1..Cardinality(P)

\* -- integral constraint ----------------------------------------------------
ICKeys == IF Sc.approx THEN {Mono} ELSE Keys(Sc.q) \cap Keys(Sc.m)
ICRefused == \/ ~Sc.approx /\ Mono \notin ICKeys
             \/ ~(ICKeys \subseteq SetOf(Sc.qr)) \/ ~(ICKeys \subseteq SetOf(Sc.zr))
ICEnds(l) == IF Sc.common # <<>> THEN Sc.common ELSE Get(Sc.m, l).e
ICOut == IF ICRefused THEN [i |-> i, ok |-> FALSE]
         ELSE [i |-> i, ok |-> TRUE, v |-> Constraint(Sc.q, Sc.m, ICEnds, ICKeys)]
\* a constant model of the monopole alone is its own integral constraint
OwnMean == (Kind = "ic" /\ ~ICRefused) =>
  LET one == <<[l |-> Mono, c |-> <<<<<<3, 2>>>>>>]>> IN Constraint(Sc.q, one, ICEnds, {Mono}) = <<3, 2>>

Out == CASE Kind = "conf" -> IF Refused THEN [i |-> i, ok |-> FALSE]
                             ELSE [i |-> i, ok |-> TRUE, h |-> hist,
                                   win |-> {l \in Ls : Uncovered(l, TRUE)}, cf |-> {l \in Ls : Uncovered(l, FALSE)}]
         [] Kind = "harm" -> [i |-> i, h |-> hist]
         [] Kind = "ic" -> ICOut
         [] Kind = "place" -> PlaceOut
         [] Kind = "split" -> [i |-> i, ok |-> Whole, order |-> Whole /\ InOrder,
                             even |-> \A p, q \in Procs : Len(Sc.log[p]) <= Len(Sc.log[q]) + 1, missing |-> {c \in 1..Sc.n : c \notin done}]
Emit == Done => PrintT(ToJson(Out))
=============================================================================
