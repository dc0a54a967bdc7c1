------------------------------- MODULE Wisdom --------------------------------
(* Planning of Fourier transforms and the files of wisdom they leave behind: a  *)
(* process that measures with a directory of wisdom reads the files of its mesh *)
(* or, where there are none, writes them for later processes.  What is planned  *)
(* and where the plans come from never shows in what is measured.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES i, k, dirs, disk, known, log
vars == <<i, k, dirs, disk, known, log>>
Sc == Scen[i]
Op == Sc.ops[k]
Ways == {"f", "b"}
Here(d, m) == {x \in disk : x.dir = d /\ x.mesh = m}
Ids(S) == {[dir |-> x.dir, way |-> x.way, mesh |-> x.mesh] : x \in S}
File(d, w, m, made) == [dir |-> d, way |-> w, mesh |-> m, made |-> made]

Init == i \in DOMAIN Scen /\ k = 1 /\ dirs = {} /\ disk = {} /\ known = {} /\ log = <<>>
\* the environment, between processes: directories, files of others, files removed
Mkdir(o) == o.op = "mkdir" /\ dirs' = dirs \cup {o.dir} /\ known' = {} /\ UNCHANGED <<disk, log>>
Put(o) == o.op = "place" /\ o.dir \in dirs /\ disk' = disk \cup (IF o.way \in {x.way : x \in Here(o.dir, o.mesh)} THEN {} ELSE {File(o.dir, o.way, o.mesh, FALSE)})
          /\ known' = {} /\ UNCHANGED <<dirs, log>>
Drop(o) == o.op = "remove" /\ disk' = {x \in disk : ~(x.dir = o.dir /\ x.way = o.way /\ x.mesh = o.mesh)} /\ known' = {} /\ UNCHANGED <<dirs, log>>
Start(o) == o.op = "start" /\ known' = {} /\ UNCHANGED <<dirs, disk, log>>
\* a program makes the directory itself
Refused(o) == o.dir # "" /\ o.scheme = "estimate"
Dirs(o) == IF o.dir # "" /\ o.program THEN dirs \cup {o.dir} ELSE dirs
\* what is there already is read, known from before or not; what is not there is written
Wanted(o) == IF o.dir = "" \/ o.dir \notin Dirs(o) THEN {} ELSE {File(o.dir, w, o.mesh, TRUE) : w \in Ways}
New(o) == {x \in Wanted(o) : x.way \notin {y.way : y \in Here(o.dir, o.mesh)} /\ [dir |-> x.dir, way |-> x.way, mesh |-> x.mesh] \notin known}
Measure(o) == /\ o.op = "measure"
              /\ IF Refused(o) THEN UNCHANGED <<dirs, disk, known>> /\ log' = Append(log, [refused |-> TRUE, files |-> Ids(disk), new |-> {}, all |-> dirs])
                 ELSE /\ dirs' = Dirs(o) /\ disk' = disk \cup New(o) /\ known' = known \cup Ids(Wanted(o))
                      /\ log' = Append(log, [refused |-> FALSE, files |-> Ids(disk \cup New(o)), new |-> Ids(New(o)), all |-> Dirs(o)])
Act(o) == Mkdir(o) \/ Put(o) \/ Drop(o) \/ Start(o) \/ Measure(o)
Next == k <= Len(Sc.ops) /\ Act(Op) /\ k' = k + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Done == k > Len(Sc.ops)
Emit == Done => PrintT(ToJson([i |-> i, log |-> log]))

\* a file is of one kind, and in a directory that is there
OneEach == \A x, y \in disk : x.dir = y.dir /\ x.way = y.way /\ x.mesh = y.mesh => x = y
InDirs == \A x \in disk : x.dir \in dirs
\* what a process knows is there
Known == known \subseteq Ids(disk)
\* what was made was asked for
AskedFor == \A x \in disk : x.made => \E j \in 1..(k - 1) : Sc.ops[j].op = "measure" /\ Sc.ops[j].dir = x.dir /\ Sc.ops[j].mesh = x.mesh /\ Sc.ops[j].scheme # "estimate"
\* measuring takes no file away and changes none
Keeps == [][\A o \in {Op} : o.op = "measure" => disk \subseteq disk' /\ \A x \in disk' \ disk : x.dir = o.dir /\ x.mesh = o.mesh]_vars
\* afterwards both ways are there, so that doing it again writes nothing
Both == [][\A o \in {Op} : o.op = "measure" /\ ~Refused(o) /\ o.dir \in Dirs(o) => {x.way : x \in {y \in disk' : y.dir = o.dir /\ y.mesh = o.mesh}} = Ways]_vars

\* -- every short history in a small world --------------------------------------------
Meshes == {<<4, 4, 4>>, <<4, 4, 6>>}
Folders == {"w1", "w2"}
World == {[op |-> "mkdir", dir |-> d] : d \in Folders} \cup {[op |-> "start"]}
         \cup {[op |-> p, dir |-> d, way |-> w, mesh |-> m] : p \in {"place", "remove"}, d \in Folders, w \in Ways, m \in Meshes}
         \cup {[op |-> "measure", dir |-> d, mesh |-> m, program |-> p, scheme |-> c] : d \in Folders \cup {""}, m \in Meshes, p \in BOOLEAN, c \in {"estimate", "measure"}}
FreeInit == i = 0 /\ k = 0 /\ dirs = {} /\ disk = {} /\ known = {} /\ log = <<>>
Settled == log' # log => LET l == log'[Len(log')] IN l.files = Ids(disk') /\ l.new = Ids(disk') \ Ids(disk) /\ disk \subseteq disk' /\ (l.refused => disk' = disk)
FreeNext == \E o \in World : /\ Act(o) /\ UNCHANGED <<i, k>>
                             /\ Assert(Settled, o)
                             /\ Assert(o.op = "measure" /\ o.dir \in Dirs(o) /\ ~Refused(o) => \A w \in Ways : \E x \in disk' : x.dir = o.dir /\ x.mesh = o.mesh /\ x.way = w, o)
FreeSpec == FreeInit /\ [][FreeNext]_vars
FreeView == <<dirs, disk, known>>
=============================================================================
