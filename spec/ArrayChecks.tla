---------------------------- MODULE ArrayChecks ----------------------------
(* The checks sample arrays undergo before they are extrapolated or           *)
(* transformed.  A reader walks along every line of samples (the array, or    *)
(* its rows and then its columns) with a window of three samples and keeps    *)
(* for each line what is still possible: rising, falling, evenly spaced, of   *)
(* one sign, evenly spaced in logarithm.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES i, l, p, st
vars == <<i, l, p, st>>
Sc == Scen[i]
A == Sc.a                                   \* rows of the array as given
NR == Len(A)
NC == Len(A[1])
\* arrays are squeezed: a single row or column is one-dimensional
Flat == NR = 1 \/ NC = 1
Fit == IF Sc.dim = 1 THEN Flat /\ NR * NC >= 2 ELSE ~Flat
Col(j) == [r \in 1..NR |-> A[r][j]]
Lines == IF Sc.dim = 1 THEN <<IF NR = 1 THEN A[1] ELSE Col(1)>> ELSE A \o [j \in 1..NC |-> Col(j)]
V == Lines[l]

Init == /\ i \in DOMAIN Scen /\ l = 1 /\ p = 2
        /\ st = IF Fit THEN [x \in DOMAIN Lines |-> [up |-> TRUE, down |-> TRUE, even |-> TRUE, sign |-> TRUE, log |-> TRUE]] ELSE <<>>
Read == /\ Fit /\ l <= Len(Lines) /\ p <= Len(V)
        /\ st' = [st EXCEPT ![l] = [up |-> @.up /\ V[p - 1] <= V[p], down |-> @.down /\ V[p - 1] >= V[p],
                                    even |-> @.even /\ (p > 2 => V[p] - V[p - 1] = V[p - 1] - V[p - 2]),
                                    sign |-> @.sign /\ V[p - 1] * V[p] > 0,
                                    log |-> @.log /\ V[p - 1] * V[p] > 0 /\ (p > 2 => V[p] * V[p - 2] = V[p - 1] * V[p - 1])]]
        /\ p' = p + 1 /\ UNCHANGED <<i, l>>
NextLine == /\ Fit /\ l < Len(Lines) /\ p > Len(V) /\ l' = l + 1 /\ p' = 2 /\ UNCHANGED <<i, st>>
Next == Read \/ NextLine
Spec == Init /\ [][Next]_vars
Done == ~Fit \/ (l = Len(Lines) /\ p > Len(V))

\* all rows rise or all rows fall, and so do the columns
Groups == IF Sc.dim = 1 THEN {{1}} ELSE {1..NR, (NR + 1)..(NR + NC)}
Sorted == \A g \in Groups : (\A x \in g : st[x].up) \/ (\A x \in g : st[x].down)
Even == \A x \in DOMAIN st : st[x].even
Log == \A x \in DOMAIN st : st[x].log
OneSign == \A x \in DOMAIN st : st[x].sign
\* the signs at the ends: equal, an outer zero being allowed unless the check is strict
End(a, b, strict) == a * b > 0 \/ (~strict /\ a = 0)
Ends(strict) == \A x \in DOMAIN Lines : LET v == Lines[x] n == Len(v) IN End(v[1], v[2], strict) /\ End(v[n], v[n - 1], strict)
Emit == Done => PrintT(ToJson([i |-> i, fit |-> Fit, sorted |-> Fit /\ Sorted, ends |-> Fit /\ Ends(FALSE), even |-> Fit /\ Even, strict |-> Fit /\ Ends(TRUE), log |-> Fit /\ Log, sign |-> Fit /\ OneSign]))

\* -- properties: the checks imply each other as they should --------------------
EvenSorted == (Done /\ Fit /\ Sc.dim = 1 /\ Even) => Sorted
LogOneSign == (Done /\ Fit /\ Log) => OneSign /\ Ends(TRUE)
StrictEnds == (Done /\ Fit /\ Ends(TRUE)) => Ends(FALSE)
LogSorted == (Done /\ Fit /\ Sc.dim = 1 /\ Log) => Sorted
\* an evenly spaced array is evenly spaced in logarithm only when it is constant
BothConstant == (Done /\ Fit /\ Sc.dim = 1 /\ Even /\ Log /\ Len(V) > 2) => \A x \in 2..Len(V) : V[x] = V[1]
=============================================================================
