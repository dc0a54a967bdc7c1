------------------------------ MODULE Reporting ------------------------------
(* What the library says while it works: messages of a logger, which are shown *)
(* at or above its level, and a progress bar, which is shown whenever one of    *)
(* its nodes has been reached since it was shown last.  Progress is counted in  *)
(* parts of D, so that it is exact.  Texts are sequences of one-letter strings. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Coupling

Scen == JsonDeserialize(IOEnv.SCEN)
D == 6400
VARIABLES i, k, level, colour, bar, log
vars == <<i, k, level, colour, bar, log>>
Sc == Scen[i]
Op == Sc.ops[k]
NoBar == [count |-> 0, name |-> "", width |-> 50, nodes |-> <<>>, next |-> 1, prog |-> 0, since |-> 0]

\* -- messages ---------------------------------------------------------------------
Types == <<"", "DBUG", "STAT", "INFO", "WARN", "ERRO">>
Decade(n) == n \div 10
Say == IF Op.at < level THEN [out |-> "", lines |-> <<>>]
       ELSE IF Decade(Op.at) > 5 THEN [out |-> "error", lines |-> <<>>]
       ELSE [out |-> "", lines |-> <<[type |-> Types[Decade(Op.at) + 1], colour |-> colour, text |-> Op.text]>>]

\* -- progress ---------------------------------------------------------------------
Percent == [j \in 1..101 |-> (j - 1)*(D \div 100)]
\* the first node that is not behind
Ahead(nodes, p) == CHOOSE j \in 1..(Len(nodes) + 1) : (j > Len(nodes) \/ p <= nodes[j]) /\ \A m \in 1..(j - 1) : p > nodes[m]
Passed(nodes, p) == Cardinality({j \in DOMAIN nodes : nodes[j] <= p})
Every(w) == [j \in 1..((D + w - 1) \div w) |-> IF j*w < D THEN j*w ELSE D]
Max(a, b) == IF a > b THEN a ELSE b
Seen(b, p) == [pct |-> (100*p) \div D, pos |-> (b.width*p) \div D, width |-> b.width, name |-> b.name, colour |-> colour]
Good(b) == [out |-> "", bar |-> b, shown |-> <<>>, done |-> FALSE]
Bad(b) == [out |-> "error", bar |-> b, shown |-> <<>>, done |-> FALSE]
Update(p) ==
  IF p > D THEN Bad([bar EXCEPT !.prog = p])
  ELSE LET hit == bar.next <= Len(bar.nodes) /\ bar.nodes[bar.next] <= p IN
       [out |-> "", shown |-> IF hit THEN <<Seen(bar, p)>> ELSE <<>>, done |-> p = D,
        bar |-> [bar EXCEPT !.prog = p, !.next = Max(@, Passed(bar.nodes, p) + 1), !.since = IF hit THEN @ + 1 ELSE @]]
Place(p) == Good([bar EXCEPT !.prog = p, !.next = Ahead(bar.nodes, p), !.since = 0])
Bar ==
  CASE Op.op = "new" -> IF Op.count < 1 THEN Bad(bar) ELSE Good([NoBar EXCEPT !.count = Op.count, !.name = Op.name, !.nodes = Percent])
    [] Op.op = "width" -> IF Op.w < 1 THEN Bad(bar) ELSE Good([bar EXCEPT !.width = Op.w])
    [] Op.op = "nodes" -> IF Op.nodes = <<>> THEN Bad(bar) ELSE Good([bar EXCEPT !.nodes = Op.nodes, !.next = Ahead(Op.nodes, bar.prog), !.since = 0])
    [] Op.op = "every" -> IF Op.w <= 0 \/ Op.w >= D THEN Bad(bar) ELSE Good([bar EXCEPT !.nodes = Every(Op.w), !.next = Ahead(Every(Op.w), bar.prog), !.since = 0])
    [] Op.op = "task" -> IF Op.t < 0 \/ Op.t > bar.count THEN Bad(bar) ELSE Place((D*Op.t) \div bar.count)
    [] Op.op = "place" -> IF Op.p < 0 \/ Op.p > D THEN Bad(bar) ELSE Place(Op.p)
    [] Op.op = "update" -> Update((D*Op.t) \div bar.count)
    [] Op.op = "reach" -> Update(Op.p)

\* -- texts ------------------------------------------------------------------------
RECURSIVE Split(_, _, _), Join(_, _), Expand(_, _)
At(s, d, j) == j + Len(d) - 1 <= Len(s) /\ SubSeq(s, j, j + Len(d) - 1) = d
First(s, d) == LET P == {j \in 1..Len(s) : At(s, d, j)} IN IF P = {} THEN 0 ELSE CHOOSE j \in P : \A m \in P : j <= m
\* pieces between delimiters; nothing after the last delimiter is no piece
Split(s, d, acc) == IF First(s, d) = 0 THEN IF s = <<>> THEN acc ELSE Append(acc, s)
                    ELSE LET j == First(s, d) IN Split(SubSeq(s, j + Len(d), Len(s)), d, Append(acc, SubSeq(s, 1, j - 1)))
Pieces(s, d) == IF s = <<>> THEN <<>> ELSE IF d = <<>> THEN <<s>> ELSE Split(s, d, <<>>)
Join(ps, d) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o d \o Join(Tail(ps), d)
Ends(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Clock(t) == Two(t \div 3600) \o ":" \o Two((t % 3600) \div 60) \o ":" \o Two(t % 60)
\* a path is a sequence of parts: text, or a variable that may be set
Part(x) == IF x.var = "" THEN x.text ELSE IF x.set THEN x.val ELSE "${" \o x.var \o "}"
Expand(ps, acc) == IF ps = <<>> THEN acc ELSE Expand(Tail(ps), acc \o Part(ps[1]))
Text == CASE Op.op = "split" -> [pieces |-> Pieces(Op.s, Op.d), joined |-> Join(Pieces(Op.s, Op.d), Op.d)]
          [] Op.op = "join" -> [joined |-> Join(Op.ps, Op.d)]
          [] Op.op = "ends" -> [ends |-> Ends(Op.s, Op.e)]
          [] Op.op = "clock" -> [clock |-> Clock(Op.t)]
          [] Op.op = "path" -> [path |-> Expand(Op.parts, "")]

\* -- the log of the Python package -------------------------------------------------
PyTypes == [d \in {10, 15, 20, 30, 40, 50} |-> CASE d = 10 -> "DBUG" [] d = 15 -> "STAT" [] d = 20 -> "INFO" [] d = 30 -> "WARN" [] d = 40 -> "ERRO" [] d = 50 -> "FATAL"]
Where == CASE Op.cpp = "start" -> " (entering C++)" [] Op.cpp = "end" -> " (exited C++)" [] Op.cpp = "in" -> " (in C++)" [] OTHER -> ""
PySay == IF Op.at < level THEN <<>> ELSE <<[type |-> PyTypes[Op.at], text |-> Op.text \o Where]>>
PyWarn == IF 30 < level THEN <<>> ELSE <<[type |-> "WARN", text |-> Op.text, category |-> Op.category]>>

\* -- what a measurement of three-point statistics says ------------------------------
\* a bar for every component that counts, or for its mirror image; each is shown as
\* progress passes its nodes (percentages are whole parts) and ends complete
\* along a global line of sight only the third order zero counts
Components == {m \in Orders(Op.ell) : WSign(Op.ell, m) # 0 /\ (Op.global => m[3] = 0)}
Mirror(m) == [a \in 1..3 |-> -m[a]]
Named == {Op.bars[j].m : j \in DOMAIN Op.bars}
MNodes == IF Op.every = 0 THEN Percent ELSE Every(Op.every)
Rises(ps) == \A a \in 1..(Len(ps) - 1) : ps[a] < ps[a + 1]
Between(p, q) == \E j \in DOMAIN MNodes : p*(D \div 100) <= MNodes[j] /\ MNodes[j] <= (q + 1)*(D \div 100)
Follows(ps) == /\ Len(ps) <= Len(MNodes)
               /\ \A a \in DOMAIN ps : Between(IF a = 1 THEN 0 ELSE ps[a - 1], ps[a])
Judge == [components |-> Op.progbar => /\ Named \subseteq Components /\ Cardinality(Named) = Len(Op.bars)
                                       /\ \A m \in Components : m \in Named \/ Mirror(m) \in Named
                                       /\ \A m \in Named : Mirror(m) = m \/ Mirror(m) \notin Named,
          none |-> ~Op.progbar => Op.bars = <<>>,
          rises |-> \A j \in DOMAIN Op.bars : Rises(Op.bars[j].pcts),
          complete |-> \A j \in DOMAIN Op.bars : Op.bars[j].pcts # <<>> /\ Op.bars[j].pcts[Len(Op.bars[j].pcts)] = 100 /\ Op.bars[j].done,
          follows |-> \A j \in DOMAIN Op.bars : Follows(Op.bars[j].pcts),
          quiet |-> \A j \in DOMAIN Op.types : Op.types[j] >= Op.verbose,
          heard |-> Op.verbose <= 20 => \E j \in DOMAIN Op.types : Op.types[j] = 20,
          same |-> Op.with = Op.without]

BarOps == {"new", "width", "nodes", "every", "task", "place", "update", "reach"}
TextOps == {"split", "join", "ends", "clock", "path"}
Init == i \in DOMAIN Scen /\ k = 1 /\ level = 0 /\ colour = FALSE /\ bar = NoBar /\ log = <<>>
Speak == Op.op = "say" /\ log' = Append(log, Say) /\ UNCHANGED <<level, colour, bar>>
PySpeak == Op.op = "pysay" /\ log' = Append(log, [lines |-> PySay]) /\ UNCHANGED <<level, colour, bar>>
PyAlert == Op.op = "pywarn" /\ log' = Append(log, [lines |-> PyWarn]) /\ UNCHANGED <<level, colour, bar>>
Level == Op.op = "level" /\ level' = Op.at /\ log' = Append(log, [lines |-> <<>>, out |-> ""]) /\ UNCHANGED <<colour, bar>>
\* the environment decides on colours: a terminal with colours that is said to be interactive
Terminal == Op.op = "env" /\ colour' = (Op.term \in {"xterm-256color", "color", "screen-color"} /\ Op.inter \in {"true", "yes", "1", "on"})
            /\ log' = Append(log, [lines |-> <<>>, out |-> ""]) /\ UNCHANGED <<level, bar>>
Move == Op.op \in BarOps /\ bar' = Bar.bar /\ log' = Append(log, [out |-> Bar.out, shown |-> Bar.shown, done |-> Bar.done]) /\ UNCHANGED <<level, colour>>
Work == Op.op \in TextOps /\ log' = Append(log, Text) /\ UNCHANGED <<level, colour, bar>>
Measured == Op.op = "measured" /\ log' = Append(log, Judge) /\ UNCHANGED <<level, colour, bar>>
Next == k <= Len(Sc.ops) /\ (Measured \/ Speak \/ PySpeak \/ PyAlert \/ Level \/ Terminal \/ Move \/ Work) /\ k' = k + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Done == k > Len(Sc.ops)
Emit == Done => PrintT(ToJson([i |-> i, log |-> log]))

\* since its nodes were set the bar has not been shown more often than it has nodes
NoMore == bar.since <= Len(bar.nodes)
\* the next node is ahead of the progress of a bar within its range
NodeAhead == bar.count > 0 /\ bar.next <= Len(bar.nodes) /\ bar.prog <= D => bar.next = Len(bar.nodes) + 1 \/ \A j \in 1..(bar.next - 1) : bar.nodes[j] <= bar.nodes[bar.next]
\* nothing below the level is heard
Quiet == [][log' # log /\ "lines" \in DOMAIN log'[Len(log')] /\ log'[Len(log')].lines # <<>> => "at" \notin DOMAIN Op \/ Op.at >= level]_vars
\* once everything is done there is nothing more to show
Complete == [][Op.op \in {"update", "reach"} /\ bar'.prog = D /\ bar.next <= Len(bar.nodes) => bar'.next > Len(bar.nodes) /\ bar'.since = bar.since + 1]_vars
\* splitting and joining are inverse but for a delimiter at the end
Inverse == k \in DOMAIN Sc.ops /\ Op.op = "split" /\ Op.d # <<>> =>
  Op.s \in {Text.joined, Text.joined \o Op.d}
=============================================================================
