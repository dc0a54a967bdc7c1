----------------------------- MODULE Catalogue -----------------------------
(***************************************************************************)
(* Particle catalogue(s) under coordinate operations (property C01; the    *)
(* same state and shift operators serve C02, the compiled catalogue).      *)
(*                                                                         *)
(* State: a catalogue `cat` and a reference catalogue `ref`, each a        *)
(* sequence of integer positions <<x, y, z>> in a fixed small unit, with   *)
(* integer weights; `sum` holds the reported summaries.  Every action is   *)
(* one public call.  Positions start as multiples of Unit, each centring   *)
(* or wrapping halves the granularity at most once, hence all divisions    *)
(* below are exact (checked by Half).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Pool,      \* set of records [cat |-> particles, ref |-> particles]
          Boxes,     \* set of box sizes <<Lx, Ly, Lz>>
          Origins,   \* set of offset vectors
          Pads,      \* set of padding factors <<num, den>> (fractions/cells)
          Grids,     \* set of cell counts per box side
          Cols,      \* set of <<column name, values>> for column assignment
          Volumes    \* set of volumes

VARIABLES cat, ref, sum, last
vars == <<cat, ref, sum, last>>

Axes == 1..3
Half(n) == IF n % 2 = 0 THEN n \div 2 ELSE Assert(FALSE, <<"odd", n>>)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Lo(c, a) == SetMin({c[i].pos[a] : i \in DOMAIN c})
Hi(c, a) == SetMax({c[i].pos[a] : i \in DOMAIN c})
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

\* The summaries a catalogue must report, as a function of its particles.
Summary(c) == [ntotal  |-> Len(c),
               wtotal  |-> Sum([i \in DOMAIN c |-> c[i].ws * c[i].wc]),
               wstotal |-> Sum([i \in DOMAIN c |-> c[i].ws]),
               lo |-> [a \in Axes |-> Lo(c, a)],
               hi |-> [a \in Axes |-> Hi(c, a)],
               span |-> [a \in Axes |-> Hi(c, a) - Lo(c, a)]]

\* Rigid shift and wrap.
Shift(c, o) == [i \in DOMAIN c |-> [c[i] EXCEPT !.pos = [a \in Axes |-> c[i].pos[a] - o[a]]]]
Wrap(c, L)  == [i \in DOMAIN c |-> [c[i] EXCEPT !.pos = [a \in Axes |-> c[i].pos[a] % L[a]]]]

CentreOrigin(r, L) == [a \in Axes |-> Half(Lo(r, a) + Hi(r, a)) - Half(L[a])]
BoxPadOrigin(r, L, f) == [a \in Axes |-> Lo(r, a) - (f[1] * L[a]) \div f[2]]
GridPadOrigin(r, L, n, f) == [a \in Axes |-> Lo(r, a) - (f[1] * L[a]) \div (n * f[2])]
PeriodOrigin(c, L) == [a \in Axes |-> Half(Lo(c, a) + Hi(c, a)) - Half(L[a])]

\* One axis-wise setter used by column assignment.
Axis(n) == CASE n = "x" -> 1 [] n = "y" -> 2 [] n = "z" -> 3
Assign(c, n, v) ==
  [i \in DOMAIN c |->
     CASE n \in {"x", "y", "z"} -> [c[i] EXCEPT !.pos[Axis(n)] = v[i]]
       [] n = "ws" -> [c[i] EXCEPT !.ws = v[i]]
       [] n = "wc" -> [c[i] EXCEPT !.wc = v[i]]
       [] n = "nz" -> [c[i] EXCEPT !.nz = <<v[i], 1>>]]

Init == \E p \in Pool :
          /\ cat = p.cat
          /\ ref = p.ref
          /\ sum = [cat |-> Summary(p.cat), ref |-> Summary(p.ref)]
          /\ last = [op |-> "init"]

Move(c2, r2, ev) ==
  /\ cat' = c2
  /\ ref' = r2
  /\ sum' = [cat |-> Summary(c2), ref |-> Summary(r2)]
  /\ last' = ev

Offset == \E o \in Origins : Move(Shift(cat, o), ref, [op |-> "offset", o |-> o])
OffsetRef == \E o \in Origins : Move(cat, Shift(ref, o), [op |-> "offset_ref", o |-> o])
OffsetScalar == \E o \in Origins :
    Move(Shift(cat, <<o[1], o[1], o[1]>>), ref, [op |-> "offset_scalar", o |-> o[1]])
Centre == \E L \in Boxes : Move(Shift(cat, CentreOrigin(cat, L)), ref, [op |-> "centre", L |-> L])
CentreWithRef == \E L \in Boxes :
    LET o == CentreOrigin(ref, L) IN
    Move(Shift(cat, o), Shift(ref, o), [op |-> "centre_ref", L |-> L])
PadBox == \E L \in Boxes, f \in Pads :
    Move(Shift(cat, BoxPadOrigin(cat, L, f)), ref, [op |-> "pad_box", L |-> L, f |-> f])
PadBoxWithRef == \E L \in Boxes, f \in Pads :
    LET o == BoxPadOrigin(ref, L, f) IN
    Move(Shift(cat, o), Shift(ref, o), [op |-> "pad_box_ref", L |-> L, f |-> f])
PadGrid == \E L \in Boxes, n \in Grids, f \in Pads :
    Move(Shift(cat, GridPadOrigin(cat, L, n, f)), ref, [op |-> "pad_grid", L |-> L, n |-> n, f |-> f])
PadGridWithRef == \E L \in Boxes, n \in Grids, f \in Pads :
    LET o == GridPadOrigin(ref, L, n, f) IN
    Move(Shift(cat, o), Shift(ref, o), [op |-> "pad_grid_ref", L |-> L, n |-> n, f |-> f])
Periodise == \E L \in Boxes :
    Move(Wrap(Shift(cat, PeriodOrigin(cat, L)), L), ref, [op |-> "periodise", L |-> L])
PeriodiseRef == \E L \in Boxes :
    Move(cat, Wrap(Shift(ref, PeriodOrigin(ref, L)), L), [op |-> "periodise_ref", L |-> L])
SetColumn == \E c \in Cols : Len(c[2]) = Len(cat) /\
    Move(Assign(cat, c[1], c[2]), ref, [op |-> "setcol", col |-> c[1], val |-> c[2]])
SetColumnRef == \E c \in Cols : Len(c[2]) = Len(ref) /\
    Move(cat, Assign(ref, c[1], c[2]), [op |-> "setcol_ref", col |-> c[1], val |-> c[2]])
MeanDensity == \E v \in Volumes :
    Move([i \in DOMAIN cat |-> [cat[i] EXCEPT !.nz = <<Len(cat), v>>]], ref,
         [op |-> "mean_density", v |-> v])
MeanDensityBox == \E L \in Boxes :
    Move([i \in DOMAIN cat |-> [cat[i] EXCEPT !.nz = <<Len(cat), L[1] * L[2] * L[3]>>]], ref,
         [op |-> "mean_density_box", L |-> L])
Read == Move(cat, ref, [op |-> "read"])

\* Rejected or documented no-op requests: nothing changes.
Rejected(ev) == UNCHANGED <<cat, ref, sum>> /\ last' = ev
PadConflict == \E L \in Boxes, f \in Pads : Rejected([op |-> "pad_conflict", L |-> L, f |-> f])
PadNothing == \E L \in Boxes : Rejected([op |-> "pad_none", L |-> L])
SetColumnBad == \E c \in Cols : Len(c[2]) # Len(cat) /\ Len(c[2]) > 1 /\
    Rejected([op |-> "setcol_bad", col |-> c[1], val |-> c[2]])
SetNonColumn == Rejected([op |-> "setcol_key"])

Next == \/ Offset \/ OffsetRef \/ OffsetScalar \/ Centre \/ CentreWithRef
        \/ PadBox \/ PadBoxWithRef \/ PadGrid \/ PadGridWithRef
        \/ Periodise \/ PeriodiseRef \/ SetColumn \/ SetColumnRef
        \/ MeanDensity \/ MeanDensityBox \/ Read
        \/ PadConflict \/ PadNothing \/ SetColumnBad \/ SetNonColumn
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties
SummariesCurrent == sum = [cat |-> Summary(cat), ref |-> Summary(ref)]
Moves(ops) == last'.op \in ops
Disp(c, d, i) == [a \in Axes |-> d[i].pos[a] - c[i].pos[a]]
RigidOps == {"offset", "offset_scalar", "centre", "pad_box", "pad_grid"}
RigidBoth == {"centre_ref", "pad_box_ref", "pad_grid_ref"}
Rigid == [][ /\ Moves(RigidOps) => /\ UNCHANGED ref
                                   /\ \A i, j \in DOMAIN cat : Disp(cat, cat', i) = Disp(cat, cat', j)
             /\ Moves(RigidBoth) => \A i \in DOMAIN cat, j \in DOMAIN ref :
                                       Disp(cat, cat', i) = Disp(ref, ref', j) ]_vars
Placed ==
  /\ last.op = "centre" => \A a \in Axes : Lo(cat, a) + Hi(cat, a) = last.L[a]
  /\ last.op = "centre_ref" => \A a \in Axes : Lo(ref, a) + Hi(ref, a) = last.L[a]
  /\ last.op = "pad_box" => \A a \in Axes : Lo(cat, a) * last.f[2] = last.f[1] * last.L[a]
  /\ last.op = "pad_box_ref" => \A a \in Axes : Lo(ref, a) * last.f[2] = last.f[1] * last.L[a]
  /\ last.op = "pad_grid" => \A a \in Axes : Lo(cat, a) * last.f[2] * last.n = last.f[1] * last.L[a]
  /\ last.op = "pad_grid_ref" => \A a \in Axes : Lo(ref, a) * last.f[2] * last.n = last.f[1] * last.L[a]
  /\ last.op = "periodise" => \A i \in DOMAIN cat, a \in Axes : cat[i].pos[a] \in 0..(last.L[a] - 1)
CongruentWrap == [][ Moves({"periodise"}) =>
    \A i, j \in DOMAIN cat, a \in Axes :
       (Disp(cat, cat', i)[a] - Disp(cat, cat', j)[a]) % last'.L[a] = 0 ]_vars
WeightsKept == [][ (~Moves({"setcol", "setcol_ref"})) =>
    /\ \A i \in DOMAIN cat : cat'[i].ws = cat[i].ws /\ cat'[i].wc = cat[i].wc
    /\ \A i \in DOMAIN ref : ref'[i].ws = ref[i].ws /\ ref'[i].wc = ref[i].wc
    /\ Len(cat') = Len(cat) /\ Len(ref') = Len(ref) ]_vars
RejectionsKeep == [][ Moves({"pad_conflict", "pad_none", "setcol_bad", "setcol_key", "read"})
                       => UNCHANGED <<cat, ref, sum>> ]_vars
=============================================================================
