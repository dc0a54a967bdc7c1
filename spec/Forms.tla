------------------------------- MODULE Forms -------------------------------
(* The output forms of a three-point table over nb bins per coordinate as one *)
(* fill-in process: a cursor walks the documented entries of the form and      *)
(* appends one entry of the table per step.                                    *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES i, cur, out
vars == <<i, cur, out>>
s == Scen[i]
nb == s.nb
Tri == s.form = "full" /\ s.equal     \* symmetric table: upper triangle only
End == <<0, 0>>
\* first entry and successor of an entry (row, column), 1-based
First == CASE s.form \in {"diag", "full"} -> <<1, 1>>
           [] s.form = "off-diag" -> IF s.idx >= 0 THEN <<1, 1 + s.idx>> ELSE <<1 - s.idx, 1>>
           [] s.form = "row" -> <<s.idx + 1, 1>>
Succ(e) ==
  CASE s.form \in {"diag", "off-diag"} -> IF e[1] < nb /\ e[2] < nb THEN <<e[1] + 1, e[2] + 1>> ELSE End
    [] s.form = "row" -> IF e[2] < nb THEN <<e[1], e[2] + 1>> ELSE End
    [] s.form = "full" -> IF e[2] < nb THEN <<e[1], e[2] + 1>>
                          ELSE IF e[1] = nb THEN End ELSE <<e[1] + 1, IF Tri THEN e[1] + 1 ELSE 1>>
Init == i \in DOMAIN Scen /\ cur = First /\ out = <<>>
Next == cur # End /\ out' = Append(out, cur) /\ cur' = Succ(cur) /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Done == cur = End
AbsI(x) == IF x < 0 THEN -x ELSE x
Len0 == CASE s.form = "diag" -> nb [] s.form = "row" -> nb [] s.form = "off-diag" -> nb - AbsI(s.idx)
          [] s.form = "full" -> IF Tri THEN (nb * (nb + 1)) \div 2 ELSE nb * nb
Emit == Done => PrintT(ToJson([i |-> i, entries |-> out]))
\* -- properties --------------------------------------------------------------
Bounded == \A k \in DOMAIN out : out[k][1] \in 1..nb /\ out[k][2] \in 1..nb
Once == \A j, k \in DOMAIN out : out[j] = out[k] => j = k
Length == Done => Len(out) = Len0
\* closed positions of the entries
Slot(e) == CASE s.form = "full" /\ Tri -> ((2 * nb - (e[1] - 1) + 1) * (e[1] - 1)) \div 2 + (e[2] - e[1]) + 1
             [] s.form = "full" -> (e[1] - 1) * nb + e[2]
             [] s.form = "row" -> e[2]
             [] s.form = "diag" -> e[1]
             [] s.form = "off-diag" -> IF s.idx >= 0 THEN e[1] ELSE e[2]
Placed == \A k \in DOMAIN out : Slot(out[k]) = k
\* every entry of the table, or its mirror image, is in the full form
Covers == (Done /\ s.form = "full") => \A a, b \in 1..nb : \E k \in DOMAIN out : out[k] = <<a, b>> \/ (Tri /\ out[k] = <<b, a>>)
=============================================================================
