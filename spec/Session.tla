------------------------------- MODULE Session -------------------------------
(* A session of measurements through the Python interface.  The world holds    *)
(* catalogues, parameter sets and measurement files; a measurement resolves    *)
(* its keyword overrides against a parameter set (or the default template)     *)
(* into a request, its result is a function of the request alone, and nothing  *)
(* but at most one file changes.                                               *)
(*                                                                            *)
(* Scenarios list the objects and an alphabet of operations.  A script picks   *)
(* operations in order; without a script every history of the given length is  *)
(* explored.  Sizes, grid numbers and bin numbers are whole, 0 when unset;     *)
(* bin edges are in thousandths; rationals are <<p, q>>, <<0, 0>> when unset;  *)
(* strings are "" and sequences <<>> when unset.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Scen == JsonDeserialize(IOEnv.SCEN)
Unset == -99

Measures == [compute_powspec |-> <<"powspec", "survey">>, compute_corrfunc |-> <<"2pcf", "survey">>,
             compute_powspec_in_gpp_box |-> <<"powspec", "sim">>, compute_corrfunc_in_gpp_box |-> <<"2pcf", "sim">>,
             compute_corrfunc_window |-> <<"2pcf-win", "random">>,
             compute_bispec |-> <<"bispec", "survey">>, compute_3pcf |-> <<"3pcf", "survey">>,
             compute_bispec_in_gpp_box |-> <<"bispec", "sim">>, compute_3pcf_in_gpp_box |-> <<"3pcf", "sim">>,
             compute_3pcf_window |-> <<"3pcf-win", "random">>]
Fourier == {"powspec", "bispec", "modes"}
Three == {"bispec", "3pcf", "3pcf-win", "3pcf-win-wa"}
Order == {"ngp", "cic", "tsc", "pcs"}
Forms == {"full", "diag", "off-diag", "row"}
Norms == {"none", "particle", "mesh", "mesh-mixed"}

Template == [box |-> <<0, 0, 0>>, grid |-> <<0, 0, 0>>, cut |-> <<0, 0>>, expand |-> <<1, 1>>, align |-> "centre", padscale |-> "box", pad |-> <<0, 1>>,
             assign |-> "tsc", inter |-> FALSE, ell |-> <<Unset, Unset, Unset>>, form |-> "diag", idx |-> Unset, binning |-> "lin",
             lo |-> Unset, hi |-> Unset, nb |-> 0, norm |-> "particle", dir |-> "", tag |-> "", stat |-> ""]

Geq(x, y) == x[1] * y[2] >= y[1] * x[2]
Ceil(a, b) == (a + b - 1) \div b
EvenUp(n) == n + (n % 2)
\* a box size is a whole number times the expansion: <<p, q>>; the cutoff fixes the cells (pi as 355/113, cutoffs are away from whole numbers of cells)
Cells(stat, L, cut) == EvenUp(IF stat \in Fourier THEN Ceil(L[1] * cut[1] * 113, L[2] * cut[2] * 355) ELSE 2 * Ceil(L[1] * cut[2], L[2] * cut[1]))
\* rule broken by settings, if any
Broken(s, ctype) ==
  IF s.assign \notin Order THEN "assignment"
  ELSE IF s.align \notin {"centre", "pad"} THEN "alignment"
  ELSE IF s.form \notin Forms THEN "form"
  ELSE IF s.norm \notin Norms THEN "norm"
  ELSE IF s.form \in {"row", "off-diag"} /\ s.idx = Unset THEN "form-index"
  ELSE IF s.norm = "mesh-mixed" /\ (ctype # "survey" \/ s.stat \in Three) THEN "mixed"
  ELSE IF s.grid[1] = 0 /\ s.cut[2] = 0 THEN "cutoff"
  ELSE IF s.align = "pad" /\ (s.pad[1] < 0 \/ (s.padscale = "box" /\ Geq(s.pad, <<1, 1>>))) THEN "pad"
  ELSE IF s.align = "pad" /\ s.padscale = "grid" /\ \E a \in 1..3 : Geq(s.pad, <<s.grid[a], 1>>) THEN "pad-grid"
  ELSE IF s.lo = Unset \/ s.lo < 0 \/ s.lo >= s.hi THEN "edges"
  ELSE IF s.nb < 2 THEN "bins"
  ELSE IF s.idx # Unset /\ (s.idx >= s.nb \/ s.idx <= -s.nb \/ (s.idx < 0 /\ s.form = "row" /\ s.stat \in Three)) THEN "index"
  ELSE ""

VARIABLES i, pc, picks, psets, cats, files, log
vars == <<i, pc, picks, psets, cats, files, log>>
Sc == Scen[i]

\* -- resolution ------------------------------------------------------------------
Stat(c) == IF c.fn = "compute_3pcf_window" /\ c.wa # <<>> THEN "3pcf-win-wa" ELSE Measures[c.fn][1]
Ctype(c) == Measures[c.fn][2]
Or(x, d) == IF x = "" THEN d ELSE x
OrSeq(x, d) == IF x = <<>> THEN d ELSE x
OrNum(x, d) == IF x = Unset THEN d ELSE x
OrRat(x, d) == IF x[2] = 0 THEN d ELSE x
\* arguments that must come with a call lacking a parameter set
Lacking(c) == c.set = 0 /\ ( ~c.samp.given \/ c.deg = <<>> \/ c.bin.nb = 0
                             \/ (Stat(c) \in Three /\ (c.form = "" \/ (c.form \in {"row", "off-diag"} /\ c.idx = Unset))))
Clash(c) == c.samp.boxpad[2] # 0 /\ c.samp.gridpad[2] # 0
\* settings of a call: keyword arguments take precedence over entries of the parameter set
Override(s, c) ==
  [s EXCEPT !.box = IF c.samp.box = <<>> THEN @ ELSE c.samp.box, !.grid = IF c.samp.grid = <<>> THEN @ ELSE c.samp.grid,
            !.cut = OrRat(c.samp.cut, @), !.expand = OrRat(c.samp.expand, @),
            !.align = Or(c.samp.align, @), !.assign = Or(c.samp.assign, @),
            !.inter = IF c.samp.inter = "" THEN @ ELSE c.samp.inter = "true",
            !.padscale = IF c.samp.boxpad[2] # 0 THEN "box" ELSE IF c.samp.gridpad[2] # 0 THEN "grid" ELSE @,
            !.pad = IF c.samp.boxpad[2] # 0 THEN c.samp.boxpad ELSE OrRat(c.samp.gridpad, @),
            !.ell = IF c.deg = <<>> THEN @ ELSE IF Len(c.deg) = 1 THEN <<@[1], @[2], c.deg[1]>> ELSE c.deg,
            !.form = IF Stat(c) \in Three THEN Or(c.form, @) ELSE @,
            !.idx = IF Stat(c) \in Three THEN OrNum(c.idx, @) ELSE @,
            !.binning = IF c.bin.nb = 0 THEN @ ELSE c.bin.scheme, !.lo = IF c.bin.nb = 0 THEN @ ELSE c.bin.lo,
            !.hi = IF c.bin.nb = 0 THEN @ ELSE c.bin.hi, !.nb = IF c.bin.nb = 0 THEN @ ELSE c.bin.nb, !.stat = Stat(c)]
\* an unset box spans the (random) particles, expanded; unset grid numbers follow from the cutoff
Ref(c) == IF Ctype(c) = "sim" THEN c.cat ELSE c.ran
BoxOf(s, c) == IF s.box[1] # 0 THEN [a \in 1..3 |-> <<s.box[a], 1>>] ELSE [a \in 1..3 |-> <<cats[Ref(c)].span[a] * s.expand[1], s.expand[2]>>]
GridOf(s, c) == IF s.grid[1] # 0 THEN s.grid ELSE [a \in 1..3 |-> Cells(s.stat, BoxOf(s, c)[a], s.cut)]
Settings(c) == LET s == Override(IF c.set = 0 THEN Template ELSE psets[c.set], c)
                   b == Broken([s EXCEPT !.grid = <<1000, 1000, 1000>>, !.align = IF @ = "pad" THEN "centre" ELSE @], Ctype(c)) IN
               IF b # "" \/ (s.grid[1] = 0 /\ s.cut[2] = 0) THEN [ok |-> FALSE, s |-> s]
               ELSE [ok |-> Broken([s EXCEPT !.grid = GridOf(s, c)], Ctype(c)) = "", s |-> s]
\* what the result depends on, and nothing else
Request(c, s) ==
  LET three == s.stat \in Three aligned == Ctype(c) # "sim" pads == aligned /\ s.align = "pad" IN
  [fn |-> c.fn, stat |-> s.stat, ctype |-> Ctype(c), cat |-> c.cat, ran |-> c.ran, los |-> IF Ctype(c) = "sim" THEN 0 ELSE c.los,
   box |-> BoxOf(s, c), grid |-> GridOf(s, c), align |-> IF aligned THEN s.align ELSE "", padscale |-> IF pads THEN s.padscale ELSE "", pad |-> IF pads THEN s.pad ELSE <<0, 1>>,
   assign |-> s.assign, inter |-> s.inter /\ ~three, ell |-> IF three THEN s.ell ELSE <<0, 0, s.ell[3]>>, wa |-> IF s.stat = "3pcf-win-wa" THEN c.wa ELSE <<>>,
   form |-> IF three THEN s.form ELSE "", idx |-> IF three /\ s.form \in {"row", "off-diag"} THEN s.idx ELSE 0,
   binning |-> s.binning, lo |-> s.lo, hi |-> s.hi, nb |-> s.nb, norm |-> s.norm]

\* -- files ----------------------------------------------------------------------
FormTag(form, idx) == CASE form = "diag" -> "_diag" [] form = "off-diag" -> "_offdiag" \o ToString(idx) [] form = "row" -> "_row" \o ToString(idx) [] form = "full" -> "_full"
Digits(t) == IF Len(t) = 2 THEN ToString(t[1]) \o ToString(t[2]) ELSE ToString(t[1]) \o ToString(t[2]) \o ToString(t[3])
Prefix == [powspec |-> "pk", bispec |-> "bk"] @@ ("2pcf" :> "xi") @@ ("2pcf-win" :> "xiw") @@ ("3pcf" :> "zeta") @@ ("3pcf-win" :> "zetaw") @@ ("3pcf-win-wa" :> "zetaw")
Name(stat, ell, form, idx, wa, tag) ==
  Prefix[stat] \o (IF stat \in Three THEN Digits(ell) \o FormTag(form, idx) ELSE ToString(ell[3]))
               \o (IF stat = "3pcf-win-wa" THEN "_wa" \o Digits(wa) ELSE "") \o tag
Suffix == (".txt" :> ".txt") @@ (".npz" :> ".npz") @@ (".TXT" :> ".txt") @@ (".NPZ" :> ".npz")
FileOf(r, s, c) == (IF s.dir = "" THEN "" ELSE s.dir \o "/") \o Name(r.stat, r.ell, r.form, r.idx, r.wa, s.tag) \o Suffix[c.save]
\* what tells measurements apart by name
Label(r, s, c) == <<r.stat, r.ell, r.form, r.idx, r.wa, s.tag, s.dir, Suffix[c.save]>>
\* the parameters used, as recorded in the file
YesNo(b) == IF b THEN "true" ELSE "false"
Switch(b) == IF b THEN "True" ELSE "False"
Columns(r) ==
  LET m == IF r.stat \in Three THEN Digits(r.ell) ELSE ToString(r.ell[3])
      v == IF r.stat \in Fourier THEN "k" ELSE "r"
      n == IF r.stat \in Fourier THEN "nmodes" ELSE "npairs" IN
  CASE r.stat = "powspec" -> <<"k_cen", "k_eff", "nmodes", "Re{pk" \o m \o "_raw}", "Im{pk" \o m \o "_raw}", "Re{pk" \o m \o "_shot}", "Im{pk" \o m \o "_shot}">>
    [] r.stat \in {"2pcf", "2pcf-win"} -> <<"r_cen", "r_eff", "npairs", "Re{xi" \o m \o "}", "Im{xi" \o m \o "}">>
    [] OTHER -> LET q == IF r.stat = "bispec" THEN "bk" ELSE "zeta" IN
         <<v \o "1_cen", v \o "1_eff", n \o "_1", v \o "2_cen", v \o "2_eff", n \o "_2",
           "Re{" \o q \o m \o "_raw}", "Im{" \o q \o m \o "_raw}", "Re{" \o q \o m \o "_shot}", "Im{" \o q \o m \o "_shot}">>
Header(r, s) == [align |-> s.align, grid |-> r.grid, mesh |-> r.assign \o ", " \o Switch(r.inter), norm |-> r.norm, columns |-> Columns(r)]

\* -- behaviour --------------------------------------------------------------------
\* grid numbers and interlacing of a parameter set follow from its other entries as soon as they can
Settle(p) == IF p.stat = "" THEN p
             ELSE [p EXCEPT !.grid = IF @[1] = 0 /\ p.box[1] # 0 /\ p.cut[2] # 0 THEN [a \in 1..3 |-> Cells(p.stat, <<p.box[a], 1>>, p.cut)] ELSE @,
                            !.inter = @ /\ p.stat \notin Three]
Init == /\ i \in DOMAIN Scen /\ pc = 0 /\ picks = <<>> /\ psets = [k \in DOMAIN Sc.psets |-> Settle(Sc.psets[k])] /\ cats = Sc.cats /\ files = <<>> /\ log = <<>>
Result(kind, key, file, head, changed) == [kind |-> kind, req |-> key, file |-> file, head |-> head, changed |-> changed, told |-> ""]
\* what a logger is told of a measurement: nothing, anything, or in turn that the C++ library is entered and left (Progress)
Told(e, c) == [e EXCEPT !.told = IF e.kind # "result" THEN "" ELSE CASE c.logger = "" -> "" [] c.logger = "plain" -> "anything" [] c.logger = "program" -> "bracketed"]
None == <<>>
Measure(c) ==
  /\ c.op = "measure"
  /\ LET st == IF Lacking(c) \/ (Clash(c) /\ Override(IF c.set = 0 THEN Template ELSE psets[c.set], c).align = "pad")
               THEN [ok |-> FALSE, s |-> Template] ELSE Settings(c) IN
     IF ~st.ok THEN log' = Append(log, Result("error", None, "", None, {})) /\ files' = files
     ELSE LET r == Request(c, st.s) IN
          IF c.save = "" THEN log' = Append(log, Told(Result("result", r, "", None, {}), c)) /\ files' = files
          ELSE IF c.save \notin DOMAIN Suffix THEN log' = Append(log, Result("error", None, "", None, {})) /\ files' = files
          ELSE LET f == FileOf(r, st.s, c) IN
               /\ files' = (f :> [req |-> r, label |-> Label(r, st.s, c)]) @@ files
               /\ log' = Append(log, Told(Result("result", r, f, Header(r, st.s), {}), c))
  /\ UNCHANGED <<psets, cats>>
\* the vectors in each bin depend on the bins, box and grid only
Record(c) ==
  /\ c.op = "record"
  /\ LET p == psets[c.set] box == OrSeq(c.box, p.box) grid == OrSeq(c.grid, p.grid) IN
     log' = Append(log, Result("record", [binning |-> c.bin.scheme, lo |-> c.bin.lo, hi |-> c.bin.hi, nb |-> c.bin.nb, space |-> c.bin.space, box |-> box, grid |-> grid], "", None, {}))
  /\ UNCHANGED <<psets, cats, files>>
\* the user changes a parameter set
Update(c) ==
  /\ c.op = "update"
  /\ psets' = [psets EXCEPT ![c.set] = Settle([f \in DOMAIN @ |-> IF f \in DOMAIN c.new THEN c.new[f] ELSE @[f]])]
  /\ log' = Append(log, Result("update", None, "", None, {c.set}))
  /\ UNCHANGED <<cats, files>>
Do(k) == /\ Measure(Sc.ops[k]) \/ Record(Sc.ops[k]) \/ Update(Sc.ops[k])
         /\ picks' = Append(picks, k)
Next == /\ pc < Sc.length
        /\ \E k \in (IF Sc.script = <<>> THEN DOMAIN Sc.ops ELSE {Sc.script[pc + 1]}) : Do(k)
        /\ pc' = pc + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Done == pc = Sc.length
SEmit == Done => PrintT(ToJson([i |-> i, picks |-> picks, log |-> log, files |-> files]))

\* -- properties --------------------------------------------------------------------
\* distinct requests never share a file
Apart == \A f, g \in DOMAIN files : f # g => files[f].label # files[g].label
\* saving again under a name replaces a measurement of the same label only
KeepsLabel == [][\A f \in DOMAIN files : f \in DOMAIN files' /\ files'[f].label = files[f].label]_vars
\* measurements leave parameter sets and catalogues as they are
Pure == [][cats' = cats /\ (psets' # psets => log'[Len(log')].kind = "update")]_vars
\* one file at most changes, and it holds the measurement just made
OneFile == [][LET e == log'[Len(log')] IN
              \A f \in DOMAIN files' : (f \in DOMAIN files /\ files[f] = files'[f]) \/ (f = e.file /\ files'[f].req = e.req)]_vars
\* the same call on the same parameter set gives the same request, wherever it stands in a history
\* a logger changes nothing of a measurement
Silent == \A a, b \in DOMAIN picks : LET x == Sc.ops[picks[a]] y == Sc.ops[picks[b]] IN
            (x.op = "measure" /\ y.op = "measure" /\ [x EXCEPT !.logger = ""] = [y EXCEPT !.logger = ""] /\ \A m \in DOMAIN log : log[m].kind # "update")
              => [log[a] EXCEPT !.told = ""] = [log[b] EXCEPT !.told = ""]
Repeats == \A a, b \in DOMAIN picks : (picks[a] = picks[b] /\ \A m \in DOMAIN log : log[m].kind # "update") => log[a] = log[b]
Grids == \A a \in DOMAIN log : log[a].kind = "result" => \A x \in 1..3 : log[a].req.grid[x] > 0 /\ log[a].req.box[x][1] > 0

\* names keep labels apart: all labels over small degrees, indices and tags that start with an underscore
NameMax == 3
NameEll == 0..NameMax
NameTags == {"", "_a", "_b", "_z0.5", "_z0.7", "_a.txt", "_1"}
Labels == ({"powspec", "2pcf", "2pcf-win"} \X {<<0, 0, e>> : e \in NameEll} \X {""} \X {0} \X {<<>>} \X NameTags)
          \cup ((Three \ {"3pcf-win-wa"}) \X (NameEll \X NameEll \X NameEll) \X Forms \X {0, 1, 2, 11, -1} \X {<<>>} \X NameTags)
          \cup ({"3pcf-win-wa"} \X (NameEll \X {0, 1} \X NameEll) \X Forms \X {0, 1, 2, 11, -1} \X {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>} \X NameTags)
Proper == {l \in Labels : (l[3] \in {"", "diag", "full"} => l[4] = 0)}
NamesApart == LET nm(l) == Name(l[1], l[2], l[3], l[4], l[5], l[6]) IN Cardinality({nm(l) : l \in Proper}) = Cardinality(Proper)
=============================================================================
