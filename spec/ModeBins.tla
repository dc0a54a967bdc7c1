------------------------------ MODULE ModeBins ------------------------------
(* Binning the vectors of a periodic mesh by length.  The mesh unit of axis a  *)
(* is c[a] length units, so squared lengths are integers; an edge is a rational *)
(* number of length units and a bin is half open: e_j <= |v| < e_(j+1).        *)
(* One object serves a sequence of requests; each visits the cells in an order *)
(* that the implementation's threads choose (`any`), and the outcome of a       *)
(* request may depend neither on that order nor on earlier requests.            *)
EXTENDS Rat, FiniteSets, TLC, Json, IOUtils
Scen == JsonDeserialize(IOEnv.SCEN)

VARIABLES i, r, todo, got, out
vars == <<i, r, todo, got, out>>
S == Scen[i]
Req == S.req[r]
Cells == (0..(S.n[1] - 1)) \X (0..(S.n[2] - 1)) \X (0..(S.n[3] - 1))
\* label of the nearest periodic image
Near(k, n) == IF 2 * k < n THEN k ELSE k - n
Vec(z) == <<Near(z[1], S.n[1]), Near(z[2], S.n[2]), Near(z[3], S.n[3])>>
Sq(v) == LET t(a) == v[a] * S.c[a] IN t(1) * t(1) + t(2) * t(2) + t(3) * t(3)
\* e <= |v| for the edge e = <<p, q>> >= 0
Below(e, q) == e[1] * e[1] <= q * e[2] * e[2]
InBin(j, q) == Below(Req.e[j], q) /\ ~Below(Req.e[j + 1], q)
NBins == Len(Req.e) - 1
First == <<0, 0, 0>>
Order(z) == (z[1] * S.n[2] + z[2]) * S.n[3] + z[3]

Start == got' = [j \in 1..NBins' |-> {}] /\ todo' = Cells
Visit(z) ==
  LET v == Vec(z) q == Sq(v) IN
  /\ got' = [j \in 1..NBins |-> IF InBin(j, q) THEN got[j] \cup {v} ELSE got[j]]
  /\ todo' = todo \ {z}
  /\ UNCHANGED <<i, r, out>>
VisitAny == S.any /\ \E z \in todo : Visit(z)
VisitNext == ~S.any /\ todo # {} /\ Visit(CHOOSE z \in todo : \A y \in todo : Order(z) <= Order(y))
Answer == [j \in 1..NBins |-> got[j]]
Finish == /\ todo = {} /\ r <= Len(S.req)
          /\ out' = Append(out, Answer) /\ r' = r + 1
          /\ IF r < Len(S.req) THEN got' = [j \in 1..(Len(S.req[r + 1].e) - 1) |-> {}] /\ todo' = Cells
             ELSE got' = <<>> /\ todo' = {}
          /\ UNCHANGED i
Init == i \in DOMAIN Scen /\ r = 1 /\ out = <<>> /\ todo = Cells /\ got = [j \in 1..NBins |-> {}]
Next == r <= Len(S.req) /\ (VisitAny \/ VisitNext \/ Finish)
Spec == Init /\ [][Next]_vars

Done == r > Len(S.req)
Emit == Done => PrintT(ToJson([i |-> i, out |-> out]))

\* every vector visited so far is in exactly one bin if its length is in range, else in none
Once == ~Done => \A z \in Cells \ todo :
   LET v == Vec(z) q == Sq(v)
       n == Cardinality({j \in 1..NBins : v \in got[j]})
   IN n = IF Below(Req.e[1], q) /\ ~Below(Req.e[NBins + 1], q) THEN 1 ELSE 0
\* the number of distinct vectors is the number of cells visited
Total == ~Done => Cardinality({Vec(z) : z \in Cells}) = S.n[1] * S.n[2] * S.n[3]
\* reversing a vector keeps its bin (the image of the Nyquist label excepted)
Parity == ~Done /\ todo = {} => \A j \in 1..NBins : \A v \in got[j] :
   LET w == <<-v[1], -v[2], -v[3]>> IN (\E z \in Cells : Vec(z) = w) => w \in got[j]
\* identical requests get identical answers
Pure == \A a, b \in DOMAIN out : S.req[a].e = S.req[b].e => out[a] = out[b]
=============================================================================
