------------------------------ MODULE Progress ------------------------------
(* What the log of a measurement may look like: the C++ library is entered and *)
(* left in turn, and it has been left when the measurement ends.  A recorded   *)
(* log is replayed event by event; it is accepted if every event is a step of  *)
(* the machine and it ends outside, having been inside.                        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES i, pc, inside, entered, stuck
vars == <<i, pc, inside, entered, stuck>>
Events == Scen[i].events
Init == i \in DOMAIN Scen /\ pc = 0 /\ inside = FALSE /\ entered = 0 /\ stuck = FALSE
Enter == Events[pc + 1] = "start" /\ ~inside /\ inside' = TRUE /\ entered' = entered + 1 /\ UNCHANGED stuck
Leave == Events[pc + 1] = "end" /\ inside /\ inside' = FALSE /\ UNCHANGED <<entered, stuck>>
Say == Events[pc + 1] = "" /\ UNCHANGED <<inside, entered, stuck>>
Step == Enter \/ Leave \/ Say
Refuse == ~ENABLED Step /\ stuck' = TRUE /\ UNCHANGED <<inside, entered>>
Next == pc < Len(Events) /\ ~stuck /\ (Step \/ Refuse) /\ pc' = pc + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Done == stuck \/ pc = Len(Events)
PEmit == Done => PrintT(ToJson([i |-> i, ok |-> ~stuck /\ ~inside /\ entered > 0, at |-> pc]))
InStep == inside => entered > 0
=============================================================================
