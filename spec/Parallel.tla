------------------------------ MODULE Parallel ------------------------------
(* A parallel loop: threads share the iterations of a loop, every iteration *)
(* computes a contribution in scratch variables and adds it to a cell of a  *)
(* shared array.  Shared cells are updated by one of four disciplines:      *)
(*   "atomic"    one indivisible addition per contribution                  *)
(*   "reduction" private partial sums, merged one thread at a time          *)
(*   "critical"  a guarded section of several steps                         *)
(*   "plain"     an unguarded load and store                                *)
(* and the scratch variables are private to a thread or shared by all.      *)
(* Whatever the number of threads, the way the iterations are dealt out and *)
(* the order of their steps, a guarded loop with private scratch ends with  *)
(* the serial result; the other loops do not (TLC prints what they lose).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Scen == JsonDeserialize(IOEnv.SCEN)   \* loops: cells of the iterations and the number of threads
VARIABLES i, todo, pc, item, scratch, reg, part, cell, log, lock, done
vars == <<i, todo, pc, item, scratch, reg, part, cell, log, lock, done>>
s == Scen[i]
N == Len(s.cells)
Th == 1..s.threads
NC == s.ncell
\* the contribution of an iteration: powers of two, so that every loss shows
Val(k) == 2^(k - 1)
Priv(t) == IF s.private THEN t ELSE 1

RECURSIVE Serial(_, _)
Serial(k, c) == IF k = 0 THEN 0 ELSE Serial(k - 1, c) + (IF s.cells[k] = c THEN Val(k) ELSE 0)

Init ==
  /\ i \in DOMAIN Scen /\ todo = 1..Len(Scen[i].cells)
  /\ pc = [t \in 1..Scen[i].threads |-> "idle"] /\ item = [t \in 1..Scen[i].threads |-> 0]
  /\ scratch = [t \in 1..Scen[i].threads |-> 0] /\ reg = [t \in 1..Scen[i].threads |-> 0]
  /\ part = [t \in 1..Scen[i].threads |-> [c \in 1..Scen[i].ncell |-> 0]]
  /\ cell = [c \in 1..Scen[i].ncell |-> 0] /\ log = <<>> /\ lock = 0 /\ done = {}

\* iterations are handed out in any way (any schedule of the loop)
Take(t) == /\ pc[t] = "idle" /\ todo # {}
           /\ \E k \in todo :
                /\ todo' = todo \ {k} /\ item' = [item EXCEPT ![t] = k]
                /\ scratch' = [scratch EXCEPT ![Priv(t)] = k]
           /\ pc' = [pc EXCEPT ![t] = "compute"]
           /\ UNCHANGED <<i, reg, part, cell, log, lock, done>>
Value(t) == scratch[Priv(t)]
Home(t) == s.cells[Value(t)]
Finish(t) == pc' = [pc EXCEPT ![t] = "idle"]
Add(t) == /\ pc[t] = "compute" /\ s.how = "atomic"
          /\ cell' = [cell EXCEPT ![Home(t)] = @ + Val(Value(t))] /\ Finish(t)
          /\ UNCHANGED <<i, todo, item, scratch, reg, part, log, lock, done>>
AddOwn(t) == /\ pc[t] = "compute" /\ s.how = "reduction"
             /\ part' = [part EXCEPT ![t][Home(t)] = @ + Val(Value(t))] /\ Finish(t)
             /\ UNCHANGED <<i, todo, item, scratch, reg, cell, log, lock, done>>
Enter(t) == /\ pc[t] = "compute" /\ s.how = "critical" /\ lock = 0
            /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "load"]
            /\ UNCHANGED <<i, todo, item, scratch, reg, part, cell, log, done>>
Load(t) == /\ (pc[t] = "load" \/ (pc[t] = "compute" /\ s.how = "plain"))
           /\ reg' = [reg EXCEPT ![t] = cell[Home(t)]] /\ pc' = [pc EXCEPT ![t] = "store"]
           /\ UNCHANGED <<i, todo, item, scratch, part, cell, log, lock, done>>
Store(t) == /\ pc[t] = "store"
            /\ cell' = [cell EXCEPT ![Home(t)] = reg[t] + Val(Value(t))]
            /\ log' = IF s.how = "critical" THEN Append(log, Value(t)) ELSE log
            /\ lock' = IF s.how = "critical" THEN 0 ELSE lock
            /\ Finish(t) /\ UNCHANGED <<i, todo, item, scratch, reg, part, done>>
\* the end of the loop: partial sums are merged thread by thread
Merge(t) == /\ todo = {} /\ \A u \in Th : pc[u] = "idle"
            /\ s.how = "reduction" /\ t \notin done
            /\ done' = done \union {t}
            /\ cell' = [c \in 1..NC |-> cell[c] + part[t][c]]
            /\ UNCHANGED <<i, todo, pc, item, scratch, reg, part, log, lock>>
Over == /\ todo = {} /\ \A u \in Th : pc[u] = "idle"
        /\ (s.how = "reduction" => done = Th)
Next == \E t \in Th : Take(t) \/ Add(t) \/ AddOwn(t) \/ Enter(t) \/ Load(t) \/ Store(t) \/ Merge(t)
Spec == Init /\ [][Next]_vars

Safe == s.private /\ s.how # "plain"
Right == \A c \in 1..NC : cell[c] = Serial(N, c)
\* -- properties of the specification -----------------------------------
Determinate == (Over /\ Safe) => Right
Excluded == Cardinality({t \in Th : pc[t] \in {"load", "store"} /\ s.how = "critical"}) <= 1
Logged == (Over /\ s.how = "critical" /\ s.private) => (Len(log) = N /\ {log[k] : k \in 1..N} = 1..N)
OneThread == (Over /\ s.threads = 1) => Right
NeverMore == Safe => \A c \in 1..NC : cell[c] <= Serial(N, c)
Emit == Over => PrintT(ToJson([i |-> i, right |-> Right, safe |-> Safe]))
=============================================================================
