------------------------------ MODULE CatFile ------------------------------
(* Reading text catalogue files line by line (property C03).  One action    *)
(* per line; `parts` is what must have been loaded so far.  `kind` chooses  *)
(* the reader: "cpp" (several files, density default count/volume) or "py". *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

S == JsonDeserialize(IOEnv.SCEN)
VARIABLES n, fi, li, parts, status
vars == <<n, fi, li, parts, status>>

Cols == S[n].cols
Files == S[n].files
Index(name) == IF \E k \in DOMAIN Cols : Cols[k] = name
               THEN CHOOSE k \in DOMAIN Cols : Cols[k] = name /\ \A m \in 1..(k - 1) : Cols[m] # name
               ELSE 0
Mandatory == {"x", "y", "z"}
Needed == {Index(c) : c \in {"x", "y", "z", "nz", "ws", "wc"}}
MaxOf(Q) == CHOOSE x \in Q : \A y \in Q : x >= y
Field(v, name, default) == IF Index(name) = 0 THEN default ELSE v[Index(name)]
Cell(v) == [pos |-> <<v[Index("x")], v[Index("y")], v[Index("z")]>>,
            nz |-> Field(v, "nz", -1000000), ws |-> Field(v, "ws", S[n].one), wc |-> Field(v, "wc", S[n].one)]

Init == /\ n \in 1..Len(S) /\ fi = 1 /\ li = 1 /\ parts = <<>>
        /\ status = "open"
Open == /\ status = "open"
        /\ status' = IF \E c \in Mandatory : Index(c) = 0 THEN "rejected" ELSE "reading"
        /\ UNCHANGED <<n, fi, li, parts>>
Skip == /\ status = "reading" /\ fi <= Len(Files) /\ li <= Len(Files[fi])
        /\ Files[fi][li].k \in {"blank", "comment"}
        /\ li' = li + 1 /\ UNCHANGED <<n, fi, parts, status>>
Row == /\ status = "reading" /\ fi <= Len(Files) /\ li <= Len(Files[fi])
       /\ Files[fi][li].k = "row"
       /\ LET v == Files[fi][li].v IN
          IF Len(v) < MaxOf(Needed) THEN status' = "rejected" /\ UNCHANGED <<parts, li>>
          ELSE parts' = Append(parts, Cell(v)) /\ li' = li + 1 /\ UNCHANGED status
       /\ UNCHANGED <<n, fi>>
NextFile == /\ status = "reading" /\ fi <= Len(Files) /\ li > Len(Files[fi])
            /\ fi' = fi + 1 /\ li' = 1 /\ UNCHANGED <<n, parts, status>>
Finish == /\ status = "reading" /\ fi > Len(Files)
          /\ status' = IF parts = <<>> THEN "rejected" ELSE "done"
          /\ UNCHANGED <<n, fi, li, parts>>
Next == Open \/ Skip \/ Row \/ NextFile \/ Finish
Spec == Init /\ [][Next]_vars

RowsBefore(f, l) == Cardinality({k \in 1..(l - 1) : Files[f][k].k = "row"})
RECURSIVE AllRows(_)
AllRows(f) == IF f = 0 THEN 0 ELSE AllRows(f - 1) + RowsBefore(f, Len(Files[f]) + 1)
\* one particle per data row, in order
OnePerRow == status # "open" =>
   Len(parts) = AllRows(MaxOf({0, fi - 1})) + (IF fi <= Len(Files) THEN RowsBefore(fi, li) ELSE 0)
Emit == (status \in {"done", "rejected"}) => PrintT(ToJson([i |-> n, status |-> status, parts |-> parts]))
=============================================================================
