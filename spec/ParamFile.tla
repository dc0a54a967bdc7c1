------------------------------ MODULE ParamFile ------------------------------
(* Parameter files.  A file is a sequence of lines; an assignment line names  *)
(* one setting and its value, any other line (blank, comment, key unknown or  *)
(* containing a known one, missing value, missing "=") says nothing.  Reading *)
(* starts from unset settings, lines take effect in order.  A set that was    *)
(* read is then copied, validated again, overridden by environment variables, *)
(* written to a file and read back: the written file names every setting as   *)
(* it takes effect, and so reads back as the same set.                        *)
EXTENDS Params

Fields == DOMAIN Scen[1].blank
Assigns(lines) == SelectSeq(lines, LAMBDA x : x.kind = "set")
RECURSIVE Fold(_, _)
Fold(s, lines) == IF lines = <<>> THEN s ELSE Fold([s EXCEPT ![lines[1].key] = lines[1].val], Tail(lines))
Read(blank, lines) == Fold(blank, Assigns(lines))

\* a set holds its files and output path with their directories
File(n) == [abs |-> TRUE, name |-> n]
Held(s) == LET v == View(s) IN
  [Settle(s) EXCEPT !.dfile = [j \in DOMAIN v.dfiles |-> File(v.dfiles[j])], !.rfile = [j \in DOMAIN v.rfiles |-> File(v.rfiles[j])],
                    !.save = IF v.save = "" THEN [mode |-> "off", abs |-> FALSE, name |-> ""] ELSE [mode |-> "path", abs |-> TRUE, name |-> v.save]]
\* the written file: effective settings, paths relative to the directories they are read from
Sub(p, d) == IF d # "" /\ Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d THEN [abs |-> FALSE, name |-> SubSeq(p, Len(d) + 1, Len(p))] ELSE File(p)
Written(s) == LET e == Eff(s) v == View(s) IN
  [e EXCEPT !.dfile = [j \in DOMAIN v.dfiles |-> Sub(v.dfiles[j], v.cdir)], !.rfile = [j \in DOMAIN v.rfiles |-> Sub(v.rfiles[j], v.cdir)],
            !.save = IF v.save = "" THEN s.save ELSE [mode |-> "path"] @@ Sub(v.save, v.mdir),
            !.inter = v.inter, !.cdir = v.cdir, !.mdir = v.mdir, !.wis = v.wis,
            !.gx = v.grid[1], !.gy = v.grid[2], !.gz = v.grid[3], !.bx = v.box[1], !.by = v.box[2], !.bz = v.box[3]]
Lines(s) == LET w == Written(s) IN [f \in Fields |-> w[f]]

FInit == i \in DOMAIN Scen /\ k = 0 /\ set = <<>> /\ live = FALSE /\ log = <<>>
ReadIn == /\ k = 0
          /\ LET s == Read(Sc.blank, Sc.lines) o == Outcome(s) IN
             /\ log' = <<o>> /\ live' = o.ok /\ set' = IF o.ok THEN Held(s) ELSE <<>>
          /\ k' = 1 /\ UNCHANGED i
Op == Sc.ops[k]
\* a copy, validating again, writing: the set stays as it is
Look == /\ live /\ k >= 1 /\ k <= Len(Sc.ops) /\ Op.op \in {"copy", "again", "write"}
        /\ log' = Append(log, [ok |-> TRUE, why |-> "", view |-> View(set)])
        /\ k' = k + 1 /\ UNCHANGED <<i, set, live>>
\* reading back what is written
Back == /\ live /\ k >= 1 /\ k <= Len(Sc.ops) /\ Op.op = "back"
        /\ LET s == Written(set) o == Outcome(s) IN
           /\ log' = Append(log, o) /\ live' = o.ok /\ set' = IF o.ok THEN Held(s) ELSE <<>>
        /\ k' = k + 1 /\ UNCHANGED i
\* environment variables replace the settings they name
Override == /\ live /\ k >= 1 /\ k <= Len(Sc.ops) /\ Op.op = "over"
            /\ LET s == Merge(set, Op.set) o == Outcome(s) IN
               /\ log' = Append(log, o) /\ live' = o.ok /\ set' = IF o.ok THEN Held(s) ELSE <<>>
            /\ k' = k + 1 /\ UNCHANGED i
FNext == ReadIn \/ Look \/ Back \/ Override
FSpec == FInit /\ [][FNext]_vars
FDone == k >= 1 /\ (~live \/ k > Len(Sc.ops))
FEmit == FDone => PrintT(ToJson([i |-> i, log |-> log]))

\* -- properties ---------------------------------------------------------------
\* writing is faithful: what is written is accepted and looks the same, and writing that again writes the same
RoundTrip == live => LET w == Written(set) IN Ok(w, FALSE) /\ View(w) = View(set) /\ Written(Held(w)) = w
\* holding a set does not change how it looks
Stable == live => View(Held(set)) = View(set)
\* the order of lines of different keys does not matter
OrderFree == k = 1 => LET a == Assigns(Sc.lines) IN
  (\A x, y \in DOMAIN a : x # y => a[x].key # a[y].key) =>
     LET rev == [x \in DOMAIN a |-> a[Len(a) + 1 - x]] IN Fold(Sc.blank, rev) = Fold(Sc.blank, a)
\* an override changes nothing else
OverrideLocal == (k > 1 /\ live /\ Sc.ops[k - 1].op = "over") =>
  LET n == DOMAIN Sc.ops[k - 1].set was == log[Len(log) - 1].view now == log[Len(log)].view
      may == (IF "tag" \in n THEN {"tag"} ELSE {}) \cup (IF "verb" \in n THEN {"verb"} ELSE {}) \cup (IF "prog" \in n THEN {"prog"} ELSE {})
             \cup (IF "scheme" \in n THEN {"flag"} ELSE {}) \cup (IF "wis" \in n THEN {"wis", "wisf", "wisb"} ELSE {})
  IN \A f \in DOMAIN now : f \in may \/ now[f] = was[f]
=============================================================================
