------------------------------ MODULE MeshRun ------------------------------
(* Runs Mesh on scenarios read from a file; every order of deposits is      *)
(* explored when AnyOrder holds.                                            *)
EXTENDS Mesh, Json, IOUtils
CONSTANT AnyOrder

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES i, todo, f, g
vars == <<i, todo, f, g>>
s == Scen[i]

Init == /\ i \in DOMAIN Scen /\ todo = DOMAIN Scen[i].ps
        /\ f = Zero(Scen[i]) /\ g = Zero(Scen[i])
Put(j) == /\ todo' = todo \ {j}
          /\ f' = Deposit(s, f, s.ps[j].x, s.ps[j].w)
          /\ g' = IF s.inter THEN Deposit(s, g, Half(s, s.ps[j].x), s.ps[j].w) ELSE g
          /\ UNCHANGED i
Next == \E j \in todo : (AnyOrder \/ \A k \in todo : j <= k) /\ Put(j)
Spec == Init /\ [][Next]_vars

Flat(h) == [c \in 1..(s.n[1]*s.n[2]*s.n[3]) |->
   LET z == c - 1 IN h[<<z \div (s.n[2]*s.n[3]), (z \div s.n[3]) % s.n[2], z % s.n[3]>>]]
Emit == (todo = {} /\ ~AnyOrder) => PrintT(ToJson([i |-> i, den |-> Den(s), f |-> Flat(f), g |-> Flat(g)]))

\* -- properties of the specification -----------------------------------
Conserved == \A j \in 1..2 :
   LET W == SumSet([k \in DOMAIN s.ps |-> s.ps[k].w[j]], (DOMAIN s.ps) \ todo) IN
   /\ Total(s, f, j) = Den(s) * W
   /\ s.inter => Total(s, g, j) = Den(s) * W
OrderFree == Closed(s, f, todo, FALSE) /\ (s.inter => Closed(s, g, todo, TRUE))
\* moving every particle by whole cells (and across a face) only rolls the mesh
Roll(h, d) == [c \in Cells(s) |-> h[[a \in Ax |-> (c[a] - d[a]) % s.n[a]]]]
RECURSIVE All(_, _)
All(d, k) == IF k = 0 THEN Zero(s) ELSE
   Deposit(s, All(d, k - 1), [a \in Ax |-> (s.ps[k].x[a] + d[a]*s.q[a]) % (s.n[a]*s.q[a])], s.ps[k].w)
Equivariant == (todo = {}) => \A d \in {<<1,0,0>>, <<0,-1,2>>, <<3,1,1>>} : All(d, Len(s.ps)) = Roll(f, d)
=============================================================================
