------------------------------- MODULE Params -------------------------------
(* Parameter sets.  A set is a record of primary settings; Validate says      *)
(* whether the combination is meaningful and which derived settings follow    *)
(* from it.  The machine applies a scripted history of changes (construction, *)
(* item assignment, bulk update, reading a file) to a set: a meaningful change *)
(* takes effect, a meaningless one leaves the set as it was.                  *)
(*                                                                            *)
(* Strings are "" when unset, sizes and counts 0, degrees and indices Unset,  *)
(* rationals <<0, 0>>.  Bin edges are in thousandths.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Scen == JsonDeserialize(IOEnv.SCEN)
Unset == -99

CatTypes == {"survey", "random", "sim", "none"}
Stats == [powspec |-> <<"2pt", "fourier">>, bispec |-> <<"3pt", "fourier">>, modes |-> <<"none", "fourier">>, pairs |-> <<"none", "config">>]
         @@ ("2pcf" :> <<"2pt", "config">>) @@ ("2pcf-win" :> <<"2pt", "config">>) @@ ("3pcf" :> <<"3pt", "config">>)
         @@ ("3pcf-win" :> <<"3pt", "config">>) @@ ("3pcf-win-wa" :> <<"3pt", "config">>)
Windows == {"2pcf-win", "3pcf-win", "3pcf-win-wa"}
Counts == {"modes", "pairs"}
Forms == {"full", "diag", "off-diag", "row"}
Norms == {"none", "particle", "mesh", "mesh-mixed"}
Binnings == {"lin", "log", "linpad", "logpad", "custom"}
Order == [ngp |-> 1, cic |-> 2, tsc |-> 3, pcs |-> 4]
Switch == [on |-> "true", off |-> "false", true |-> "true", false |-> "false"]
Schemes == {"estimate", "measure", "patient"}

Or(x, d) == IF x = "" THEN d ELSE x
Num(x) == IF x = Unset THEN 0 ELSE x
RatOr(x, d) == IF x[2] = 0 THEN d ELSE x
Geq(x, y) == x[1] * y[2] >= y[1] * x[2]
AbsP(x) == IF x < 0 THEN -x ELSE x
\* least integer not below a / b
Ceil(a, b) == (a + b - 1) \div b
EvenUp(n) == n + (n % 2)

\* settings as they take effect
Eff(s) == [s EXCEPT !.form = Or(@, "diag"), !.norm = Or(@, "particle"), !.binning = Or(@, "lin"), !.assign = Or(@, "tsc"),
                    !.inter = Or(@, "false"), !.scheme = Or(@, "measure"), !.align = Or(@, "centre"), !.padscale = Or(@, "box"),
                    !.expand = RatOr(@, <<1, 1>>), !.pad = RatOr(@, <<0, 1>>), !.idx = Num(@), !.l1 = Num(@), !.l2 = Num(@), !.l3 = Num(@),
                    !.wi = Num(@), !.wj = Num(@), !.bmin = Num(@), !.bmax = Num(@)]
NPoint(e) == IF e.stat = "" THEN "" ELSE Stats[e.stat][1]
Space(e) == IF e.stat = "" THEN "" ELSE Stats[e.stat][2]
Grid0(e) == IF 0 \in {e.gx, e.gy, e.gz} THEN <<0, 0, 0>> ELSE <<e.gx, e.gy, e.gz>>
Box(e) == IF 0 \in {e.bx, e.by, e.bz} THEN <<0, 0, 0>> ELSE <<e.bx, e.by, e.bz>>
\* Nyquist cutoff: k = pi N / L, r = 2 L / N; pi as 355/113 (cutoffs are not taken near whole numbers of cells)
Cells(e, L) == EvenUp(IF Space(e) = "fourier" THEN Ceil(L * e.cut[1] * 113, e.cut[2] * 355) ELSE Ceil(2 * L * e.cut[2], e.cut[1]))
Grid(e) == IF Grid0(e)[1] # 0 \/ Box(e)[1] = 0 THEN Grid0(e) ELSE [a \in 1..3 |-> Cells(e, Box(e)[a])]
Inter(e) == IF NPoint(e) = "3pt" THEN "false" ELSE Switch[e.inter]
Shape(e) == IF e.form = "full" /\ e.l1 = e.l2 THEN "triu" ELSE e.form

\* the first rule a set breaks, if any; py: the Python route, where the measurement type may be set later
Broken(s, py) ==
  LET e == Eff(s) pad == e.align = "pad" IN
  IF py /\ (s.bmin = Unset \/ s.bmax = Unset)
    THEN "range"
  ELSE IF ~(e.cat \in CatTypes \/ (py /\ e.cat = ""))
    THEN "catalogue_type"
  ELSE IF e.align \notin {"centre", "pad"}
    THEN "alignment"
  ELSE IF e.padscale \notin {"box", "grid"}
    THEN "padscale"
  ELSE IF e.assign \notin DOMAIN Order
    THEN "assignment"
  ELSE IF e.inter \notin DOMAIN Switch
    THEN "interlace"
  ELSE IF ~(e.stat \in DOMAIN Stats \/ (py /\ e.stat = ""))
    THEN "statistic_type"
  ELSE IF (e.stat \in Windows /\ e.cat # "random")
          \/ (e.stat \in DOMAIN Stats \ (Windows \cup Counts) /\ e.cat \in {"random", "none"})
    THEN "compatible"
  ELSE IF e.form \notin Forms
    THEN "form"
  ELSE IF py /\ e.form \in {"off-diag", "row"} /\ s.idx = Unset
    THEN "form-index"
  ELSE IF e.norm \notin Norms
    THEN "norm"
  ELSE IF e.norm = "mesh-mixed" /\ (NPoint(e) # "2pt" \/ e.cat \notin {"survey", ""})
    THEN "mixed"
  ELSE IF e.binning \notin Binnings
    THEN "binning"
  ELSE IF e.scheme \notin Schemes
    THEN "scheme"
  ELSE IF e.wis # "" /\ e.scheme = "estimate"
    THEN "wisdom"
  ELSE IF Box(e)[1] = 0 /\ ~Geq(e.expand, <<1, 1>>)
    THEN "expand"
  ELSE IF Grid0(e)[1] = 0 /\ (e.cut[2] = 0 \/ e.cut[1] <= 0)
    THEN "cutoff"
  ELSE IF Grid0(e)[1] = 0 /\ Box(e)[1] # 0 /\ e.stat = ""
    THEN "cutoff-space"
  ELSE IF pad /\ e.pad[1] < 0
    THEN "pad"
  ELSE IF pad /\ e.padscale = "box" /\ Geq(e.pad, <<1, 1>>)
    THEN "pad-box"
  ELSE IF pad /\ e.padscale = "grid" /\ Grid(e)[1] # 0 /\ \E a \in 1..3 : Geq(e.pad, <<Grid(e)[a], 1>>)
    THEN "pad-grid"
  ELSE IF e.bmin < 0 \/ e.bmin >= e.bmax
    THEN "edges"
  ELSE IF e.nb < (IF e.binning \in {"linpad", "logpad"} THEN 7 ELSE 2)
    THEN "bins"
  ELSE IF e.idx < 0 /\ NPoint(e) = "3pt" /\ e.form = "row"
    THEN "row"
  ELSE IF AbsP(e.idx) >= e.nb
    THEN "index"
  ELSE ""
Ok(s, py) == Broken(s, py) = ""

\* a directory ends in one slash, whether or not it was given with it
Slash(d) == IF SubSeq(d, Len(d), Len(d)) = "/" THEN d ELSE d \o "/"
Dir(d, default) == IF d = "" THEN default ELSE Slash(d)
Path(f, dir) == (IF f.abs THEN "" ELSE dir) \o f.name
Paths(fs, dir) == [k \in DOMAIN fs |-> Path(fs[k], dir)]
Wisdom(e, dir) == LET g == Grid(e) IN
  IF e.wis = "" THEN "" ELSE Slash(e.wis) \o "fftw_" \o dir \o "_" \o ToString(g[1]) \o "x" \o ToString(g[2]) \o "x" \o ToString(g[3]) \o ".wisdom"
Save(e) == LET m == Dir(e.mdir, "./") std == m \o "binned_vectors" \o e.tag IN
  CASE e.save.mode = "on" -> std
    [] e.save.mode = "off" -> IF e.stat \in Counts THEN std ELSE ""
    [] e.save.mode = "path" -> Path(e.save, m)
View(s) ==
  LET e == Eff(s) IN
  [npoint |-> NPoint(e), space |-> Space(e), order |-> Order[e.assign], inter |-> Inter(e), shape |-> Shape(e), flag |-> e.scheme,
   form |-> e.form, norm |-> e.norm, binning |-> e.binning, assign |-> e.assign, align |-> e.align, padscale |-> e.padscale,
   expand |-> e.expand, pad |-> e.pad, cut |-> IF s.cut[2] = 0 THEN <<0, 1>> ELSE s.cut, ell |-> <<e.l1, e.l2, e.l3>>, wa |-> <<e.wi, e.wj>>,
   bins |-> <<e.bmin, e.bmax, e.nb, e.idx>>, box |-> Box(e), grid |-> Grid(e), cat |-> e.cat, stat |-> e.stat,
   wis |-> IF e.wis = "" THEN "" ELSE Slash(e.wis), wisf |-> Wisdom(e, "cif"), wisb |-> Wisdom(e, "cib"), prog |-> Or(e.prog, "false"), verb |-> e.verb,
   cdir |-> Dir(e.cdir, ""), mdir |-> Dir(e.mdir, "./"), tag |-> e.tag, save |-> Save(e),
   dfiles |-> IF e.cat \in {"survey", "sim"} THEN Paths(e.dfile, Dir(e.cdir, "")) ELSE <<>>,
   rfiles |-> IF e.cat \in {"survey", "random"} THEN Paths(e.rfile, Dir(e.cdir, "")) ELSE <<>>]
\* settings of an accepted Python set: two of the derived values replace what was set
Settle(s) == LET e == Eff(s) g == Grid(e) IN
  [s EXCEPT !.inter = Inter(e), !.gx = IF g[1] = 0 THEN @ ELSE g[1], !.gy = IF g[1] = 0 THEN @ ELSE g[2], !.gz = IF g[1] = 0 THEN @ ELSE g[3]]

Merge(s, c) == [f \in DOMAIN s |-> IF f \in DOMAIN c THEN c[f] ELSE s[f]]

VARIABLES i, k, set, live, log
vars == <<i, k, set, live, log>>
Sc == Scen[i]
Py == Sc.route = "py"
Outcome(s) == LET b == Broken(s, Py) IN IF b = "" THEN [ok |-> TRUE, why |-> "", view |-> View(s)] ELSE [ok |-> FALSE, why |-> b, view |-> <<>>]
Init == i \in DOMAIN Scen /\ k = 0 /\ set = <<>> /\ live = FALSE /\ log = <<>>
Construct == /\ k = 0
             /\ LET o == Outcome(Sc.start) IN
                /\ log' = <<o>>
                /\ live' = o.ok
                /\ set' = IF o.ok THEN (IF Py THEN Settle(Sc.start) ELSE Sc.start) ELSE <<>>
             /\ k' = 1 /\ UNCHANGED i
Change == /\ live /\ k >= 1 /\ k <= Len(Sc.ops)
          /\ LET s == Merge(set, Sc.ops[k]) o == Outcome(s) IN
             /\ log' = Append(log, IF o.ok THEN o ELSE [ok |-> FALSE, why |-> o.why, view |-> View(set)])
             /\ set' = IF o.ok THEN Settle(s) ELSE set
          /\ k' = k + 1 /\ UNCHANGED <<i, live>>
Next == Construct \/ Change
Spec == Init /\ [][Next]_vars
Done == k >= 1 /\ (~live \/ k > Len(Sc.ops))
Emit == Done => PrintT(ToJson([i |-> i, log |-> log]))

\* -- properties ---------------------------------------------------------------
\* a live set always satisfies all rules, and looking at it again changes nothing
Coherent == live => /\ Ok(set, Py)
                    /\ Py => (Settle(set) = set /\ log[Len(log)].view = View(set))
\* grid numbers and volume come together with positive sizes; three-point sets are never interlaced
Sensible == live => LET v == View(set) IN
   /\ v.npoint = "3pt" => v.inter = "false"
   /\ (v.box[1] # 0) => (v.grid[1] # 0)
   /\ AbsP(v.bins[4]) < v.bins[3]
   /\ (v.shape = "triu") = (v.form = "full" /\ v.ell[1] = v.ell[2])
   /\ v.stat \in Windows => v.cat = "random"
=============================================================================
