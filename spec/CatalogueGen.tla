---------------------------- MODULE CatalogueGen ----------------------------
(* Behaviours of Catalogue with their history, printed for replay.         *)
EXTENDS Catalogue, Json
CONSTANT Depth
VARIABLE hist
GInit == Init /\ hist = <<[ev |-> last, cat |-> cat, ref |-> ref, sum |-> sum]>>
GNext == Next /\ hist' = Append(hist, [ev |-> last', cat |-> cat', ref |-> ref', sum |-> sum'])
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == (Len(hist) = Depth + 1) => PrintT(ToJson(hist))
Bound == Len(hist) <= Depth + 1
=============================================================================
