---------------------------- MODULE CatalogueCpp ----------------------------
(* The compiled catalogue: same state and shift operators as Catalogue,     *)
(* per-axis padding, wrapping without centring, reloading and reweighting.  *)
EXTENDS Catalogue, Json

CONSTANTS Pads3, Grids3, Weights, Depth
VARIABLE hist

BoxPad3(r, L, f) == [a \in Axes |-> Lo(r, a) - (f[a][1] * L[a]) \div f[a][2]]
GridPad3(r, L, n, f) == [a \in Axes |-> Lo(r, a) - (f[a][1] * L[a]) \div (n[a] * f[a][2])]

CPadBox == \E L \in Boxes, f \in Pads3 :
    Move(Shift(cat, BoxPad3(cat, L, f)), ref, [op |-> "pad_box", L |-> L, f3 |-> f])
CPadBoxRef == \E L \in Boxes, f \in Pads3 :
    LET o == BoxPad3(ref, L, f) IN
    Move(Shift(cat, o), Shift(ref, o), [op |-> "pad_box_ref", L |-> L, f3 |-> f])
CPadGrid == \E L \in Boxes, n \in Grids3, f \in Pads3 :
    Move(Shift(cat, GridPad3(cat, L, n, f)), ref, [op |-> "pad_grid", L |-> L, n3 |-> n, f3 |-> f])
CPadGridRef == \E L \in Boxes, n \in Grids3, f \in Pads3 :
    LET o == GridPad3(ref, L, n, f) IN
    Move(Shift(cat, o), Shift(ref, o), [op |-> "pad_grid_ref", L |-> L, n3 |-> n, f3 |-> f])
CWrap == \E L \in Boxes : Move(Wrap(cat, L), ref, [op |-> "wrap", L |-> L])
CWrapRef == \E L \in Boxes : Move(cat, Wrap(ref, L), [op |-> "wrap_ref", L |-> L])
CReload == \E p \in Pool : Move(p.cat, ref, [op |-> "reload", ps |-> p.cat])
CReweight == \E v \in Weights :
    Move([i \in DOMAIN cat |-> [cat[i] EXCEPT !.ws = v[i]]], ref, [op |-> "reweight", val |-> v])
CLoadBad == \E w \in 0..6 : Rejected([op |-> "load_bad", which |-> w])

CNext == \/ Offset \/ OffsetRef \/ Centre \/ CentreWithRef \/ CPadBox \/ CPadBoxRef
         \/ CPadGrid \/ CPadGridRef \/ CWrap \/ CWrapRef \/ CReload \/ CReweight \/ CLoadBad

CInit == Init /\ hist = <<[ev |-> last, cat |-> cat, ref |-> ref, sum |-> sum]>>
CStep == CNext /\ hist' = Append(hist, [ev |-> last', cat |-> cat', ref |-> ref', sum |-> sum'])
CSpec == CInit /\ [][CStep]_<<vars, hist>>

\* the same without history, for exhaustive checking
DInit == Init /\ hist = <<>>
DSpec == DInit /\ [][CNext /\ UNCHANGED hist]_<<vars, hist>>

Emit == (Len(hist) = Depth + 1) => PrintT(ToJson(hist))

CPlaced ==
  /\ last.op = "centre" => \A a \in Axes : Lo(cat, a) + Hi(cat, a) = last.L[a]
  /\ last.op = "centre_ref" => \A a \in Axes : Lo(ref, a) + Hi(ref, a) = last.L[a]
  /\ last.op = "pad_box" => \A a \in Axes : Lo(cat, a) * last.f3[a][2] = last.f3[a][1] * last.L[a]
  /\ last.op = "pad_box_ref" => \A a \in Axes : Lo(ref, a) * last.f3[a][2] = last.f3[a][1] * last.L[a]
  /\ last.op = "pad_grid" => \A a \in Axes : Lo(cat, a) * last.f3[a][2] * last.n3[a] = last.f3[a][1] * last.L[a]
  /\ last.op = "pad_grid_ref" => \A a \in Axes : Lo(ref, a) * last.f3[a][2] * last.n3[a] = last.f3[a][1] * last.L[a]
  /\ last.op = "wrap" => \A i \in DOMAIN cat, a \in Axes : cat[i].pos[a] \in 0..(last.L[a] - 1)
CWrapCongruent == [][ last'.op = "wrap" =>
    \A i \in DOMAIN cat, a \in Axes : (cat'[i].pos[a] - cat[i].pos[a]) % last'.L[a] = 0 ]_vars
CRigid == [][ /\ last'.op \in RigidOps => /\ UNCHANGED ref
                                          /\ \A i, j \in DOMAIN cat : Disp(cat, cat', i) = Disp(cat, cat', j)
              /\ last'.op \in RigidBoth => \A i \in DOMAIN cat, j \in DOMAIN ref :
                                       Disp(cat, cat', i) = Disp(ref, ref', j) ]_vars
CRejectionsKeep == [][ last'.op = "load_bad" => UNCHANGED <<cat, ref, sum>> ]_vars
=============================================================================
