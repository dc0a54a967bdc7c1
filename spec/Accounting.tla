----------------------------- MODULE Accounting -----------------------------
(* Resource accounting.  Objects (catalogues, mesh fields, statistics) are     *)
(* created, used and destroyed; every object holds particles, complex grids    *)
(* and real grids.  The counters of the library are not state of their own:    *)
(* they are sums over the objects alive (Mem, CGrids, RGrids), plus what an     *)
(* operation holds while it runs, which only shows in the recorded maxima.     *)
(* A failing operation may leave the catalogue it was loading with or without  *)
(* particles; which one is taken from the observation (seen), and the counters *)
(* must agree with it.  Bytes: a particle 56, a complex number 16, a real 8.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Scen == JsonDeserialize(IOEnv.SCEN)
PBytes == 56
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})

VARIABLES i, k, obj, peak, ffts, log
vars == <<i, k, obj, peak, ffts, log>>
Sc == Scen[i]
Op == Sc.ops[k]
\* what an object holds
C(o) == IF o.kind = "field" THEN (IF o.inter THEN 2 ELSE 1) ELSE IF o.kind = "stats" THEN 1 ELSE 0
Rg(o) == IF o.kind # "cat" /\ o.extra THEN 1 ELSE 0
B(o) == IF o.kind = "cat" THEN PBytes * o.n ELSE o.nmesh * (16 * C(o) + 8 * Rg(o))
Mem(ob) == Sum([x \in DOMAIN ob |-> B(ob[x])], DOMAIN ob)
CGrids(ob) == Sum([x \in DOMAIN ob |-> C(ob[x])], DOMAIN ob)
RGrids(ob) == Sum([x \in DOMAIN ob |-> Rg(ob[x])], DOMAIN ob)
Put(ob, x, o) == [y \in DOMAIN ob \cup {x} |-> IF y = x THEN o ELSE ob[y]]
Del(ob, x) == [y \in DOMAIN ob \ {x} |-> ob[y]]
Counters(ob, pk, f) == [mem |-> Mem(ob), c |-> CGrids(ob), r |-> RGrids(ob), g |-> 2 * CGrids(ob) + RGrids(ob), max |-> pk, fft |-> f,
                        cats |-> [x \in {y \in DOMAIN ob : ob[y].kind = "cat"} |-> ob[x].n]]
\* The maxima never fall below a level that was reached.  Operations that hold
\* something while they run (loose) may raise them further, by an amount of their own.
Peak(ob, p) == [mem |-> Max(p.mem, Mem(ob)), c |-> Max(p.c, CGrids(ob)), r |-> Max(p.r, RGrids(ob)), g |-> Max(p.g, 2 * CGrids(ob) + RGrids(ob))]
Join(p, q) == [x \in DOMAIN p |-> Max(p[x], q[x])]
Go(ob, loose, f) == /\ obj' = ob /\ ffts' = [f |-> ffts.f + f[1], b |-> ffts.b + f[2]]
                    /\ peak' = Peak(ob, IF loose THEN Join(peak, Sc.seen[k].max) ELSE peak)
                    /\ log' = Append(log, Counters(ob, peak', ffts'))
                    /\ k' = k + 1 /\ UNCHANGED i
N(x) == obj[x].n
Init == /\ i \in DOMAIN Scen /\ k = 1 /\ obj = <<>> /\ ffts = [f |-> 0, b |-> 0] /\ log = <<>>
        /\ peak = [mem |-> 0, c |-> 0, r |-> 0, g |-> 0]
On(name) == k <= Len(Sc.ops) /\ Op.op = name
NoFFT == <<0, 0>>

\* -- catalogues ---------------------------------------------------------------
NewCat == On("cat") /\ Go(Put(obj, Op.o, [kind |-> "cat", n |-> 0]), FALSE, NoFFT)
\* renewing particles gives up the old ones
Load == On("load") /\ Go(Put(obj, Op.o, [kind |-> "cat", n |-> Op.n]), TRUE, NoFFT)
FailLoad == On("badload") /\ \E n \in {0, N(Op.o), Op.n} :
              n = Sc.seen[k].cats[Op.o] /\ Go(Put(obj, Op.o, [kind |-> "cat", n |-> n]), TRUE, NoFFT)
Final == On("final") /\ Go(Put(obj, Op.o, [kind |-> "cat", n |-> 0]), FALSE, NoFFT)
\* -- meshes -------------------------------------------------------------------
NewField == On("field") /\ Go(Put(obj, Op.o, [kind |-> "field", nmesh |-> Op.nmesh, inter |-> Op.inter, extra |-> FALSE]), FALSE, NoFFT)
NewStats == On("stats") /\ Go(Put(obj, Op.o, [kind |-> "stats", nmesh |-> Op.nmesh, inter |-> Op.inter, plan |-> Op.plan, extra |-> FALSE]), FALSE, NoFFT)
Destroy == On("del") /\ Go(Del(obj, Op.o), FALSE, NoFFT)
\* weights of the particles are held while they are assigned
Assign1 == (On("unweighted") \/ On("fluct") \/ On("ylm1") \/ On("quad1") \/ On("pownorm")) /\ Go(obj, TRUE, NoFFT)
Assign2 == (On("ylm2") \/ On("quad2")) /\ Go(obj, TRUE, NoFFT)
Forward == On("fft") /\ Go(obj, FALSE, <<C(obj[Op.o]), 0>>)
Backward == On("ifft") /\ Go(obj, FALSE, <<0, 1>>)
\* the first use of the assignment window or the aliasing function takes a real grid for good
Keep(x) == Put(obj, x, [obj[x] EXCEPT !.extra = TRUE])
Compensate == On("comp") /\ Go(Keep(Op.o), FALSE, NoFFT)
Filter == (On("band") \/ On("sjl")) /\ Go(Keep(Op.o), FALSE, <<0, 1>>)
TwoPtK == On("p2k") /\ Go(Keep(Op.o), FALSE, NoFFT)
TwoPtR == On("p2r") /\ Go(Keep(Op.o), FALSE, <<0, 1>>)
Vectors == On("binvec") /\ Go(obj, TRUE, NoFFT)
Reject == On("badp2k") /\ Go(obj, FALSE, NoFFT)
\* -- whole measurements: whatever they hold is given back ----------------------
\* it holds at least the grids it needs (Op.grids complex grids of Op.nmesh cells)
Held(p) == [mem |-> Max(p.mem, Mem(obj) + 16 * Op.grids * Op.nmesh), c |-> Max(p.c, CGrids(obj) + Op.grids), r |-> p.r,
            g |-> Max(p.g, 2 * (CGrids(obj) + Op.grids) + RGrids(obj))]
Measure == /\ On("measure")
           /\ obj' = obj
           /\ peak' = Held(Join(peak, Sc.seen[k].max))
           /\ ffts' = Join(ffts, Sc.seen[k].fft)
           /\ log' = Append(log, Counters(obj, peak', ffts'))
           /\ k' = k + 1 /\ UNCHANGED i
Next == NewCat \/ Load \/ FailLoad \/ Final \/ NewField \/ NewStats \/ Destroy \/ Assign1 \/ Assign2 \/ Forward \/ Backward
        \/ Compensate \/ Filter \/ TwoPtK \/ TwoPtR \/ Vectors \/ Reject \/ Measure
Spec == Init /\ [][Next]_vars
Done == k > Len(Sc.ops)
Stuck == ~Done /\ ~ENABLED Next
Emit == (Done \/ Stuck) => PrintT(ToJson([i |-> i, log |-> log, obj |-> Cardinality(DOMAIN obj)]))

\* -- properties ---------------------------------------------------------------
Baseline == (DOMAIN obj = {}) => (Mem(obj) = 0 /\ CGrids(obj) = 0 /\ RGrids(obj) = 0)
NonNegative == Mem(obj) >= 0 /\ CGrids(obj) >= 0 /\ RGrids(obj) >= 0
MaxBounds == \A q \in DOMAIN log : /\ log[q].mem <= peak.mem /\ log[q].c <= peak.c /\ log[q].r <= peak.r /\ log[q].g <= peak.g
                                    /\ \A x \in DOMAIN peak : log[q].max[x] <= peak[x]
=============================================================================
