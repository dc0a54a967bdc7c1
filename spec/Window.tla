------------------------------- MODULE Window -------------------------------
(* Window function objects (three-point).                                      *)
(*                                                                             *)
(* A behaviour creates objects and works with them; several are held at a time. *)
(* An object has, for each of its multipoles, sample points r and the samples Q *)
(* at all pairs of them, read from a table with a row for each pair: the upper  *)
(* triangle, row by row, where the first two degrees of the multipole are the   *)
(* same, all pairs otherwise.                                                  *)
(*                                                                             *)
(*   new    from a table, times the square of the contrast alpha; resampled     *)
(*          unless every multipole has log-linear points already                *)
(*   dict   from the points and samples of another object                      *)
(*   io     saved to a file and loaded                                          *)
(*   sub    the points in ranges of separation (ends included) and of index     *)
(*   res    resampled within the same ends, log-linearly or linearly            *)
(*                                                                             *)
(* Nothing but the object worked on in place changes.  Samples are those of a   *)
(* polynomial wherever they are resampled.                                     *)
EXTENDS Rat, FiniteSets, TLC, Json, IOUtils

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES i, k, objs, hist
vars == <<i, k, objs, hist>>
Sc == Scen[i]
Ops == Sc.ops
Op == Ops[k + 1]
SetOf(s) == {s[x] : x \in DOMAIN s}
Keys(s) == {s[x].l : x \in DOMAIN s}
Get(s, l) == s[CHOOSE x \in DOMAIN s : s[x].l = l]
Rg(n, d) == Red(n, d)

\* -- order of multipoles ----------------------------------------------------
Less(a, b) == LET key(x) == <<x[3], x[1], x[2]>> IN
              \E j \in 1..3 : key(a)[j] < key(b)[j] /\ \A x \in 1..(j - 1) : key(a)[x] = key(b)[x]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : \A b \in S \ {a} : Less(a, b) IN <<a>> \o Sorted(S \ {a})

\* -- tables -----------------------------------------------------------------
Symmetric(l) == l[1] = l[2]
Rows(l, n) == IF Symmetric(l) THEN (n * (n + 1)) \div 2 ELSE n * n
\* sizes of which a table has so many rows
Sizes(l, rows) == {n \in 0..rows : Rows(l, n) = rows}
RowOf(l, n, a, b) == IF ~Symmetric(l) THEN (a - 1) * n + b
                     ELSE LET x == MinI(a, b) y == MaxI(a, b) IN (x - 1) * n - ((x - 1) * (x - 2)) \div 2 + (y - x + 1)
Read(l, n, flat, f) == [a \in 1..n |-> [b \in 1..n |-> RMul(f, flat[RowOf(l, n, a, b)])]]

\* -- polynomials ------------------------------------------------------------
Horner(co, x) == LET RECURSIVE H(_)
                     H(a) == IF a > Len(co) THEN RZero ELSE RAdd(co[a], RMul(x, H(a + 1)))
                 IN H(1)
Val(c, x, y) == Horner([a \in 1..Len(c) |-> Horner(c[a], y)], x)
Table(c, r) == TLCEval([a \in 1..Len(r) |-> [b \in 1..Len(r) |-> Val(c, r[a], r[b])]])
Times(c, f) == TLCEval([a \in DOMAIN c |-> [b \in DOMAIN c[a] |-> RMul(f, c[a][b])]])

\* -- sample points ----------------------------------------------------------
Geometric(r) == \A x \in 2..(Len(r) - 1) : RMul(r[x - 1], r[x + 1]) = RMul(r[x], r[x])
\* the root is whole
Step(lo, hi, n) == LET q == RDiv(hi, lo) IN CHOOSE t \in {Rg(a, 1) : a \in 2..q[1]} \cup {Rg(3, 2)} : RPow(t, n - 1) = q
Spaced(sp, lo, hi, n) ==
  IF sp = "lin" THEN [x \in 1..n |-> RAdd(lo, RMul(Red(x - 1, n - 1), RSub(hi, lo)))]
  ELSE LET t == TLCEval(Step(lo, hi, n)) IN [x \in 1..n |-> RMul(lo, RPow(t, x - 1))]

\* -- operations -------------------------------------------------------------
\* objects: src, m (records of a multipole, in order)
Ordered(ms) == LET ls == Sorted(Keys(ms)) IN [x \in DOMAIN ls |-> Get(ms, ls[x])]
Resampled(o, sp, size) ==
  [o EXCEPT !.m = [x \in DOMAIN o.m |->
     LET e == o.m[x]
         r == TLCEval(Spaced(sp, e.r[1], e.r[Len(e.r)], IF size = 0 THEN Len(e.r) ELSE size))
     IN [l |-> e.l, c |-> e.c, r |-> r, q |-> Table(e.c, r)]]]
LogLin(o) == \A x \in DOMAIN o.m : Geometric(o.m[x].r)
Malformed(e) == Len(e.flat) # e.rows \/ Sizes(e.l, e.rows) = {}
Created == LET f == RMul(Op.alpha, Op.alpha)
               rec(e) == [l |-> e.l, r |-> e.r, c |-> Times(e.c, f), q |-> TLCEval(Read(e.l, Len(e.r), e.flat, f))]
           IN [src |-> [x \in DOMAIN Op.ms |-> Get(Op.ms, Sorted(Keys(Op.ms))[x]).src], m |-> Ordered([x \in DOMAIN Op.ms |-> rec(Op.ms[x])])]
Needs(o) == ~LogLin(o)
Refuse == hist' = Append(hist, [ok |-> FALSE, warn |-> FALSE, at |-> 0, o |-> [src |-> <<>>, m |-> <<>>]]) /\ objs' = objs
Put(o, at, w) == /\ objs' = (IF at > Len(objs) THEN Append(objs, o) ELSE [objs EXCEPT ![at] = o])
                 /\ hist' = Append(hist, [ok |-> TRUE, warn |-> w, at |-> at, o |-> [src |-> o.src, m |-> [x \in DOMAIN o.m |-> [l |-> o.m[x].l, r |-> o.m[x].r, q |-> o.m[x].q]]]])
Fresh == Len(objs) + 1
Tick == k < Len(Ops) /\ k' = k + 1 /\ UNCHANGED i

New == /\ Tick /\ Op.op = "new"
       /\ IF \E x \in DOMAIN Op.ms : Malformed(Op.ms[x]) THEN Refuse
          ELSE LET o == Created IN
               IF ~Needs(o) THEN Put(o, Fresh, FALSE)
               ELSE IF Op.loglin = 0 THEN Put(o, Fresh, TRUE)
               ELSE Put(Resampled(o, "lglin", IF Op.loglin = 1 THEN 0 ELSE Op.loglin), Fresh, FALSE)
Arrays(o) == [x \in DOMAIN o.src |-> "array"]
FromDict == /\ Tick /\ Op.op = "dict"
            /\ Put([objs[Op.h] EXCEPT !.src = IF Op.src THEN @ ELSE Arrays(objs[Op.h])], Fresh, FALSE)
FromFile == /\ Tick /\ Op.op = "io" /\ Put(objs[Op.h], Fresh, FALSE)
\* a range is a pair of optional ends; an index range counts from 0, from the end if negative
Above(r, e) == e = <<>> \/ RLe(e[1], r)
Below(r, e) == e = <<>> \/ RLe(r, e[1])
Clamp(v, n) == IF v < 0 THEN MaxI(0, v + n) ELSE MinI(v, n)
Chosen(e) ==
  LET n == Len(e.r)
      rr == IF Op.rmode = "all" THEN Op.rr[1] ELSE IF Op.rmode = "each" /\ e.l \in Keys(Op.rr) THEN Get(Op.rr, e.l) ELSE [lo |-> <<>>, hi |-> <<>>]
      ir == IF Op.imode = "all" THEN Op.ir[1] ELSE IF Op.imode = "each" /\ e.l \in Keys(Op.ir) THEN Get(Op.ir, e.l) ELSE [lo |-> <<>>, hi |-> <<>>]
      a == IF ir.lo = <<>> THEN 0 ELSE Clamp(ir.lo[1], n)
      b == IF ir.hi = <<>> THEN n ELSE Clamp(ir.hi[1], n)
  IN {x \in 1..n : Above(e.r[x], rr.lo) /\ Below(e.r[x], rr.hi) /\ a < x /\ x <= b}
RECURSIVE Nth(_)
Nth(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : \A b \in S : a <= b IN <<a>> \o Nth(S \ {a})
Picked(o) == [o EXCEPT !.m = [x \in DOMAIN o.m |->
                LET e == o.m[x] p == TLCEval(Nth(Chosen(e)))
                IN [l |-> e.l, c |-> e.c, r |-> [a \in DOMAIN p |-> e.r[p[a]]], q |-> [a \in DOMAIN p |-> [b \in DOMAIN p |-> e.q[p[a]][p[b]]]]]]]
Sub == /\ Tick /\ Op.op = "sub" /\ Put(Picked(objs[Op.h]), IF Op.inplace THEN Op.h ELSE Fresh, FALSE)
Res == /\ Tick /\ Op.op = "res"
       /\ IF Op.spacing \notin {"lin", "lglin"} THEN Refuse
          ELSE Put(Resampled(objs[Op.h], Op.spacing, Op.size), Op.h, FALSE)

Init == i \in DOMAIN Scen /\ k = 0 /\ objs = <<>> /\ hist = <<>>
Next == New \/ FromDict \/ FromFile \/ Sub \/ Res
Spec == Init /\ [][Next]_vars

\* -- properties -------------------------------------------------------------
Square == \A h \in DOMAIN objs : \A x \in DOMAIN objs[h].m :
  LET e == objs[h].m[x] IN Len(e.q) = Len(e.r) /\ \A a \in DOMAIN e.q : Len(e.q[a]) = Len(e.r)
Increasing == \A h \in DOMAIN objs : \A x \in DOMAIN objs[h].m :
  LET r == objs[h].m[x].r IN \A a \in 1..(Len(r) - 1) : RLt(r[a], r[a + 1])
StaysSymmetric == \A h \in DOMAIN objs : \A x \in DOMAIN objs[h].m :
  LET e == objs[h].m[x] IN Symmetric(e.l) => \A a, b \in DOMAIN e.q : e.q[a][b] = e.q[b][a]
\* samples are those of the polynomial throughout
Consistent == \A h \in DOMAIN objs : \A x \in DOMAIN objs[h].m :
  LET e == objs[h].m[x] IN e.c # <<>> => e.q = Table(e.c, e.r)
\* each pair of points has a row of its own, shared with the mirrored pair only in a triangle
EveryRow == k = 0 => \A l \in {<<0, 0, 0>>, <<1, 1, 2>>, <<2, 0, 2>>} : \A n \in 1..6 :
  /\ {RowOf(l, n, p[1], p[2]) : p \in (1..n) \X (1..n)} = 1..Rows(l, n)
  /\ \A a, b \in 1..n : b < n /\ (Symmetric(l) => a <= b) => RowOf(l, n, a, b + 1) = RowOf(l, n, a, b) + 1
Ends(o) == [x \in DOMAIN o.m |-> <<o.m[x].r[1], o.m[x].r[Len(o.m[x].r)]>>]
KeepsEnds == [][(k < Len(Ops) /\ Op.op = "res" /\ objs' # objs) => Ends(objs'[Op.h]) = Ends(objs[Op.h])]_vars
OthersStay == [][\A h \in DOMAIN objs : (objs'[h] # objs[h]) => (Op.op = "res" \/ (Op.op = "sub" /\ Op.inplace)) /\ h = Op.h]_vars
Emit == k = Len(Ops) => PrintT(ToJson([i |-> i, h |-> hist]))
=============================================================================
