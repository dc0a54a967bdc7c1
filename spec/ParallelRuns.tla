---------------------------- MODULE ParallelRuns ----------------------------
(* Judges recorded runs of the library's parallel loops: the machine of     *)
(* Parallel.tla has one outcome whatever the threads, so every run of a job *)
(* must show the outcome of its first, single-threaded run.  Results are    *)
(* fixed-point digests; Tol units allow for the order of additions.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Tol

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES i, k, bad
vars == <<i, k, bad>>
s == Scen[i]
Abs(x) == IF x < 0 THEN -x ELSE x
Names(r) == DOMAIN r.v
Same(a, b) ==    \* the results of two runs that differ
  {n \in Names(a) \union Names(b) :
     \/ n \notin Names(a) \/ n \notin Names(b)
     \/ Len(a.v[n]) # Len(b.v[n])
     \/ \E j \in DOMAIN a.v[n] : Abs(a.v[n][j] - b.v[n][j]) > Tol}
Init == i \in DOMAIN Scen /\ k = 1 /\ bad = {}
Next == /\ k < Len(s.runs) /\ k' = k + 1 /\ UNCHANGED i
        /\ bad' = bad \union {<<n, k + 1>> : n \in Same(s.runs[1], s.runs[k + 1])}
Spec == Init /\ [][Next]_vars
Serial1 == s.runs[1].t = 1
Emit == k = Len(s.runs) => PrintT(ToJson([i |-> i, bad |-> bad]))
=============================================================================
