------------------------------- MODULE Program -------------------------------
(* Runs of the stand-alone program in a directory.  A run reads a parameter    *)
(* file, which names catalogue files, and ends with status zero and the        *)
(* measurement of the request the parameters make (the same request as in the  *)
(* Python interface, see Session), or with another status and no measurement.  *)
(* The parameters used are written once they are accepted, and running from    *)
(* them repeats the measurement.                                               *)
(*                                                                            *)
(* A configuration is a parameter set, a catalogue type, the states of the     *)
(* catalogue files, the names of their columns, where binned vectors go ("" for*)
(* nowhere, "true" for the default) and wide-angle orders.  Arguments of a run *)
(* are a configuration or a file of used parameters, or none, a missing file,  *)
(* an unknown option or a request for information.                             *)
EXTENDS Session

Runs == [f \in {"powspec", "bispec", "2pcf", "3pcf"} |-> {"survey", "sim"}] @@ [f \in {"2pcf-win", "3pcf-win", "3pcf-win-wa"} |-> {"random"}]
        @@ [f \in {"modes", "pairs"} |-> {"none", "sim", "survey", "random"}]
Plain == {"modes", "pairs"}
Function == [survey |-> [powspec |-> "compute_powspec", bispec |-> "compute_bispec"] @@ ("2pcf" :> "compute_corrfunc") @@ ("3pcf" :> "compute_3pcf"),
             sim |-> [powspec |-> "compute_powspec_in_gpp_box", bispec |-> "compute_bispec_in_gpp_box"] @@ ("2pcf" :> "compute_corrfunc_in_gpp_box") @@ ("3pcf" :> "compute_3pcf_in_gpp_box"),
             random |-> ("2pcf-win" :> "compute_corrfunc_window") @@ ("3pcf-win" :> "compute_3pcf_window") @@ ("3pcf-win-wa" :> "compute_3pcf_window")]
\* some function with the box of the catalogue type
Stand == [survey |-> "compute_powspec", sim |-> "compute_powspec_in_gpp_box", random |-> "compute_corrfunc_window", none |-> "compute_powspec_in_gpp_box"]

\* configuration of a run: settings and the rest
Conf(k) == LET g == Sc.progs[k] IN [s |-> psets[g.set], g |-> g]
Pads(s) == s.binning \in {"linpad", "logpad"}
\* padded bins of the program are a little wider than the cells of the grid, or the modes of the box: <<numerator, denominator>>, over 2 pi for modes
MaxBox(B) == CHOOSE x \in {B[a] : a \in 1..3} : \A a \in 1..3 : Geq(x, B[a])
MinGrid(n) == CHOOSE m \in {n[a] : a \in 1..3} : \A a \in 1..3 : m <= n[a]
PadCell(s, B, n) == LET L == MaxBox(B) IN IF s.stat \in Fourier THEN <<L[2], L[1]>> ELSE <<L[1], L[2] * MinGrid(n)>>
PadBin(s, B, n) == LET d == PadCell(s, B, n) IN IF Pads(s) THEN <<201 * d[1], 200 * d[2]>> ELSE <<0, 1>>
\* the last edge is beyond the 5 of them (pi as 355/113; it is never close)
\* custom bins of the program, of separations only, split the first of the 5 fixed ones in two
Custom(s) == s.binning = "custom" => s.stat \notin Fourier /\ s.nb > 6 /\ s.hi > 50000
Extends(s, B, n) == LET d == PadCell(s, B, n) m == IF s.stat \in Fourier THEN <<710, 113>> ELSE <<1, 1>> IN
                    Pads(s) => 5025 * m[1] * d[1] < s.hi * m[2] * d[2]
Big == <<1000, 1000, 1000>>
Call(cf) == [fn |-> IF cf.s.stat \in Plain THEN Stand[cf.g.ctype] ELSE Function[cf.g.ctype][cf.s.stat],
             cat |-> IF cf.g.ctype \in {"survey", "sim"} THEN cf.g.data.cat ELSE 0,
             ran |-> IF cf.g.ctype \in {"survey", "random"} THEN cf.g.rand.cat ELSE 0, los |-> 0, wa |-> cf.g.wa]
\* parameters acceptable by themselves
Sound(cf) ==
  LET s == cf.s IN
  /\ s.stat \in DOMAIN Runs /\ cf.g.ctype \in Runs[s.stat]
  /\ s.norm = "mesh-mixed" => s.stat \in {"powspec", "2pcf"}
  /\ Pads(s) => s.nb >= 7
  /\ Broken(IF s.grid[1] = 0 THEN [s EXCEPT !.grid = Big] ELSE s, cf.g.ctype) = ""
  /\ s.grid[1] = 0 => s.cut[2] # 0
  /\ s.grid[1] = 0 /\ s.box[1] # 0 => Broken([s EXCEPT !.grid = [a \in 1..3 |-> Cells(s.stat, <<s.box[a], 1>>, s.cut)]], cf.g.ctype) = ""
\* catalogue files there
There(cf) == /\ cf.g.ctype \in {"survey", "sim"} => cf.g.data.state \in {"whole", "parts"}
             /\ cf.g.ctype \in {"survey", "random"} => cf.g.rand.state \in {"whole", "parts"}
\* ... and acceptable with the box and grid that follow from the catalogues
Fits(cf) == /\ Broken([cf.s EXCEPT !.grid = GridOf(cf.s, Call(cf))], cf.g.ctype) = ""
            /\ Custom(cf.s) /\ Extends(cf.s, BoxOf(cf.s, Call(cf)), GridOf(cf.s, Call(cf)))
Stray(cf) == cf.g.bvec \in {Sc.stray[n] : n \in DOMAIN Sc.stray}     \* binned vectors for a folder that is not there
Opens(cf) == cf.s.dir \notin {Sc.blocked[n] : n \in DOMAIN Sc.blocked}

\* -- files -----------------------------------------------------------------------
ProgName(s, wa) ==
  Prefix[s.stat] \o (IF s.stat \in Three THEN Digits(s.ell) ELSE ToString(s.ell[3]))
                 \o (IF s.stat = "3pcf-win-wa" THEN "_wa" \o Digits(wa) ELSE "")
                 \o (IF s.stat \in Three THEN FormTag(s.form, s.idx) ELSE "") \o s.tag
In(s, f) == IF s.dir = "" THEN f ELSE s.dir \o "/" \o f
Used(cf) == In(cf.s, "parameters_used" \o cf.s.tag)
Vectors(cf) == IF cf.g.bvec = "" /\ cf.s.stat \notin Plain THEN "" ELSE In(cf.s, IF cf.g.bvec \in {"", "true"} THEN "binned_vectors" \o cf.s.tag ELSE cf.g.bvec)
Bins(cf) == LET s == cf.s IN [binning |-> s.binning, lo |-> s.lo, hi |-> s.hi, nb |-> s.nb, space |-> IF s.stat \in Fourier THEN "fourier" ELSE "config",
                              box |-> BoxOf(s, Call(cf)), grid |-> GridOf(s, Call(cf)), padbin |-> PadBin(s, BoxOf(s, Call(cf)), GridOf(s, Call(cf)))]
Req(cf) == [cols |-> cf.g.cols, padbin |-> PadBin(cf.s, BoxOf(cf.s, Call(cf)), GridOf(cf.s, Call(cf)))] @@ Request(Call(cf), cf.s)
Entry(file, kind, conf, req, head) == [file |-> file, kind |-> kind, conf |-> conf, req |-> req, head |-> head]
Heading(cf) == [Header(Request(Call(cf), cf.s), cf.s) EXCEPT !.mesh = cf.s.assign \o ", " \o YesNo(Request(Call(cf), cf.s).inter)]
Writes(cf) ==
  IF ~Sound(cf) \/ ~Opens(cf) THEN <<>>
  ELSE <<Entry(Used(cf), "used", cf, None, None)>>
       \o (IF ~There(cf) \/ ~Fits(cf) THEN <<>>
           ELSE (IF cf.s.stat \in Plain THEN <<>> ELSE <<Entry(In(cf.s, ProgName(cf.s, cf.g.wa)), "measurement", None, Req(cf), Heading(cf))>>)
                \o (IF Vectors(cf) = "" \/ Stray(cf) THEN <<>> ELSE <<Entry(Vectors(cf), "vectors", None, Bins(cf), None)>>))
Succeeds(cf) == Sound(cf) /\ Opens(cf) /\ There(cf) /\ Fits(cf) /\ ~Stray(cf)

\* -- behaviour ---------------------------------------------------------------------
PInit == Init
Merge(ws) == [f \in {ws[n].file : n \in DOMAIN ws} |-> ws[CHOOSE n \in DOMAIN ws : ws[n].file = f /\ \A m \in n + 1..Len(ws) : ws[m].file # f]]
Go(cf) == /\ files' = Merge(Writes(cf)) @@ files
          /\ log' = Append(log, [ok |-> Succeeds(cf), writes |-> Writes(cf)])
Idle(ok) == files' = files /\ log' = Append(log, [ok |-> ok, writes |-> <<>>])
Tagged(cf, c) == IF c.tag = "-" THEN cf ELSE [cf EXCEPT !.s.tag = c.tag]
Run(c) ==
  CASE c.args = "file" -> Go(Tagged(Conf(c.prog), c))
    [] c.args = "used" -> LET f == Used(Conf(c.prog)) IN IF f \in DOMAIN files THEN Go(files[f].conf) ELSE Idle(FALSE)
    [] c.args \in {"none", "missing", "unknown"} -> Idle(FALSE)
    [] c.args \in {"help", "version"} -> Idle(TRUE)
PNext == /\ pc < Sc.length
         /\ \E k \in (IF Sc.script = <<>> THEN DOMAIN Sc.ops ELSE {Sc.script[pc + 1]}) : Run(Sc.ops[k]) /\ picks' = Append(picks, k)
         /\ pc' = pc + 1 /\ UNCHANGED <<i, psets, cats>>
PSpec == PInit /\ [][PNext]_vars
PEmit == Done => PrintT(ToJson([i |-> i, picks |-> picks, log |-> log]))

\* -- properties ----------------------------------------------------------------------
\* a run that fails leaves measurements as they are (unless all it fails to do is
\* write the binned vectors, which come last); one that does not makes its own only
Safe == [][LET e == log'[Len(log')] IN
           \A f \in DOMAIN files' : \/ f \in DOMAIN files /\ files[f] = files'[f]
                                    \/ \E n \in DOMAIN e.writes : e.writes[n].file = f /\ (e.ok \/ e.writes[n].kind = "used" \/ (e.writes[n].kind = "measurement" /\ \E m \in DOMAIN e.writes : e.writes[m].kind = "used" /\ Stray(e.writes[m].conf)))]_vars
Kept == [][DOMAIN files \subseteq DOMAIN files']_vars
\* a run of an acceptable configuration measures something
Yields == \A n \in DOMAIN log : (log[n].ok /\ log[n].writes # <<>>) => \E m \in DOMAIN log[n].writes : log[n].writes[m].kind \in {"measurement", "vectors"}
\* used parameters, unless they are the acceptable part of a failing run, make the same measurements again
Replays == \A n \in DOMAIN log : \A m \in DOMAIN log[n].writes : log[n].writes[m].kind = "used" => Writes(log[n].writes[m].conf) = log[n].writes
\* names of the program keep labels apart, too
ProgNamesApart == LET nm(l) == ProgName([stat |-> l[1], ell |-> l[2], form |-> l[3], idx |-> l[4], tag |-> l[6]], l[5]) IN Cardinality({nm(l) : l \in Proper}) = Cardinality(Proper)
=============================================================================
