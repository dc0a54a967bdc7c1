------------------------------- MODULE Tools -------------------------------
(* The companion tools as machines on a directory of files.  A scenario is a  *)
(* directory and a list of calls of one tool; every call reads files and      *)
(* writes at most one.                                                        *)
(*  exchange  transposes a measurement of a three-point statistic: the two    *)
(*            degrees in the name and in the column labels, the coordinate     *)
(*            columns, and the order of the rows (first then second bin)       *)
(*  combine   stacks the measurements of several statistics, one row for       *)
(*            every realisation, in the order of their serial numbers          *)
(*  ini, yml  derive a parameter file from a template, changing the parameters *)
(*            that are named and no other                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES i, k, fs, log
vars == <<i, k, fs, log>>
Sc == Scen[i]
Op == Sc.ops[k]
Range(f) == {f[x] : x \in DOMAIN f}
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(Tail(s))
RECURSIVE Order(_, _)
\* the elements of S in the order of distinct keys (sequences of integers of one length)
LexLt(a, b) == \E j \in DOMAIN a : a[j] < b[j] /\ \A x \in 1..(j - 1) : a[x] = b[x]
Order(S, key) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : \A b \in S \ {a} : LexLt(key[a], key[b]) IN <<a>> \o Order(S \ {a}, key)
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

\* -- exchange --------------------------------------------------------------------
Swap3(l) == <<l[2], l[1], l[3]>>
SwapRow(r) == <<r[4], r[5], r[6], r[1], r[2], r[3]>> \o SubSeq(r, 7, Len(r))
SortRows(t) == LET o == Order(DOMAIN t, [x \in DOMAIN t |-> <<t[x][1], t[x][4]>>]) IN [x \in DOMAIN t |-> t[o[x]]]
Exchanged(c) == [head |-> c.head, label |-> [stat |-> c.label.stat, ell |-> Swap3(c.label.ell)], rows |-> SortRows([x \in DOMAIN c.rows |-> SwapRow(c.rows[x])])]
Plain == {".dat", ".txt", ".csv", ".tsv"}
NewName(n, o) == [n EXCEPT !.dir = IF o.outdir = "" THEN n.dir ELSE o.outdir, !.ell = Swap3(n.ell),
                           !.rest = IF n.ext \in Plain THEN n.rest \o o.tag ELSE n.rest,
                           !.ext = IF n.ext \in Plain THEN n.ext ELSE n.ext \o o.tag]
Exchange == LET n == Op.file IN
  CASE n.ell[1] = n.ell[2] -> [fs |-> fs, out |-> "nothing to do"]
    [] n.ell[1] # n.ell[2] /\ n \notin DOMAIN fs -> [fs |-> fs, out |-> "error"]
    [] OTHER -> [fs |-> Put(fs, NewName(n, Op), Exchanged(fs[n])), out |-> "written"]

\* -- combine ---------------------------------------------------------------------
\* names are [comp, sn]; a combined vector is [comps, made by]
In(sn) == Op.lo = 0 \/ (Op.lo <= sn /\ sn <= Op.hi)
Files(c) == {n \in DOMAIN fs : n.kind = "data" /\ n.comp = c /\ n.set = Op.set /\ In(n.sn)}
Serials(c) == {n.sn : n \in Files(c)}
Three(stat) == stat \in {"bk", "zeta"}
Bin(n, r) == IF Three(n.stat) THEN SubSeq(r, 4, 6) ELSE SubSeq(r, 1, 3)
Raw(n, r) == IF Three(n.stat) THEN SubSeq(r, 7, 8) ELSE SubSeq(r, 4, 5)
Shot(n, r) == IF Three(n.stat) THEN SubSeq(r, 9, 10) ELSE IF n.stat = "xi" THEN <<0, 0>> ELSE SubSeq(r, 6, 7)
Each(F(_, _), n) == [x \in DOMAIN fs[n] |-> F(n, fs[n][x])]
At(c, sn) == CHOOSE n \in Files(c) : n.sn = sn
Combine ==
  LET cs == Op.comps S == Serials(cs[1]) IN
  IF \E x \in DOMAIN cs : Serials(cs[x]) # S \/ Serials(cs[x]) = {} THEN [fs |-> fs, out |-> "error"]
  ELSE LET o == Order(S, [x \in S |-> <<x>>])
           all(F(_, _)) == [x \in DOMAIN o |-> Cat([y \in DOMAIN cs |-> Each(F, At(cs[y], o[x]))])]
           v == [bins |-> all(Bin)[1], raw |-> all(Raw), shot |-> all(Shot)]
       IN [fs |-> Put(fs, [kind |-> "vector", comps |-> cs, set |-> Op.set, dir |-> Op.outdir], v), out |-> "written"]

\* -- parameter files ---------------------------------------------------------------
\* an INI file is a sequence of lines: settings and notes
Named(p) == {p[x][1] : x \in DOMAIN p}
Last(p, key) == LET j == CHOOSE j \in DOMAIN p : p[j][1] = key /\ \A m \in DOMAIN p : p[m][1] = key => m <= j IN p[j][2]
First(p, key) == CHOOSE j \in DOMAIN p : p[j][1] = key /\ \A m \in DOMAIN p : p[m][1] = key => j <= m
SetLines(t) == {x \in DOMAIN t : t[x].kind = "set"}
Keys(t) == {t[x].key : x \in SetLines(t)}
\* what a reader makes of a file: the last line of a parameter counts
Reading(t) == [q \in Keys(t) |-> LET j == CHOOSE j \in SetLines(t) : t[j].key = q /\ \A m \in SetLines(t) : t[m].key = q => m <= j IN t[j].val]
IniLine(x, p) == IF x.kind = "set" /\ x.key \in Named(p) THEN [kind |-> "set", key |-> x.key, val |-> Last(p, x.key)] ELSE x
IniExtra(t, p) == Order(Named(p) \ Keys(t), [q \in Named(p) |-> <<First(p, q)>>])
IniGen(t, p) == [x \in DOMAIN t |-> IniLine(t[x], p)] \o [x \in DOMAIN IniExtra(t, p) |-> [kind |-> "set", key |-> IniExtra(t, p)[x], val |-> Last(p, IniExtra(t, p)[x])]]
Ini == IF Op.src \notin DOMAIN fs THEN [fs |-> fs, out |-> "error"]
       ELSE LET t == fs[Op.src] IN [fs |-> Put(fs, Op.dst, IniGen(t, Op.pars)), out |-> IF Named(Op.pars) \subseteq Keys(t) THEN "written" ELSE "warned"]

\* a YAML file is a function from paths to typed values; a new value comes as text,
\* with what it reads as where YAML is read and which types it can be converted to
Convert(old, x) ==
  CASE old.t \in {"null", "bool"} -> [ok |-> TRUE, val |-> x.yaml]
    [] old.t = "int" -> [ok |-> x.int # "", val |-> [t |-> "int", v |-> x.int]]
    [] old.t = "float" -> [ok |-> x.float # "", val |-> [t |-> "float", v |-> x.float]]
    [] old.t = "str" -> [ok |-> TRUE, val |-> [t |-> "str", v |-> x.text]]
    [] old.t = "list" -> [ok |-> x.literal, val |-> x.yaml]
Apply(y, p) ==      \* one parameter: the tree, whether that is possible, and whether it is new
  LET path == p[1] IN
  IF path \in DOMAIN y THEN LET c == Convert(y[path], p[2]) IN [tree |-> IF c.ok THEN Put(y, path, c.val) ELSE y, ok |-> c.ok, new |-> FALSE]
  ELSE IF (Len(path) = 1 /\ \A q \in DOMAIN y : q[1] # path[1]) \/ \E q \in DOMAIN y : Len(path) = 2 /\ Len(q) = 2 /\ q[1] = path[1]
       THEN [tree |-> Put(y, path, [t |-> "str", v |-> p[2].text]), ok |-> TRUE, new |-> TRUE]
       ELSE [tree |-> y, ok |-> FALSE, new |-> FALSE]
RECURSIVE ApplyAll(_, _)
ApplyAll(y, p) == IF p = <<>> THEN [tree |-> y, ok |-> TRUE, new |-> FALSE]
                  ELSE LET a == Apply(y, p[1]) IN
                       IF ~a.ok THEN a ELSE LET b == ApplyAll(a.tree, Tail(p)) IN [b EXCEPT !.new = b.new \/ a.new]
Yml == IF Op.src \notin DOMAIN fs THEN [fs |-> fs, out |-> "error"]
       ELSE LET a == ApplyAll(fs[Op.src], Op.pars) IN
            IF a.ok THEN [fs |-> Put(fs, Op.dst, a.tree), out |-> IF a.new THEN "warned" ELSE "written"] ELSE [fs |-> fs, out |-> "error"]

\* -- the machine ---------------------------------------------------------------------
Start == [n \in {f.name : f \in Range(Sc.files)} |-> (CHOOSE f \in Range(Sc.files) : f.name = n).content]
YamlStart == [n \in {f.name : f \in Range(Sc.files)} |->
                LET c == (CHOOSE f \in Range(Sc.files) : f.name = n).content IN [p \in {c[x][1] : x \in DOMAIN c} |-> (CHOOSE x \in Range(c) : x[1] = p)[2]]]
Init == i \in DOMAIN Scen /\ k = 1 /\ log = <<>> /\ fs = IF Scen[i].tool = "yml" THEN YamlStart ELSE Start
Result == CASE Sc.tool = "exchange" -> Exchange [] Sc.tool = "combine" -> Combine [] Sc.tool = "ini" -> Ini [] Sc.tool = "yml" -> Yml
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : TRUE IN <<a>> \o Listed(S \ {a})
Content(c) == IF Sc.tool = "yml" THEN Listed({<<q, c[q]>> : q \in DOMAIN c}) ELSE c
Call == /\ k <= Len(Sc.ops)
        /\ LET r == Result
               w == Listed({n \in DOMAIN r.fs : n \notin DOMAIN fs \/ r.fs[n] # fs[n]}) IN
           /\ fs' = r.fs
           /\ log' = Append(log, [out |-> r.out, wrote |-> [x \in DOMAIN w |-> [name |-> w[x], content |-> Content(r.fs[w[x]])]]])
        /\ k' = k + 1 /\ UNCHANGED i
Spec == Init /\ [][Call]_vars
Done == k > Len(Sc.ops)
Emit == Done => PrintT(ToJson([i |-> i, log |-> log]))

\* -- properties -----------------------------------------------------------------------
\* exchanging twice is sorting, and exchanging keeps the rows
Ordered(t) == \A x \in 1..(Len(t) - 1) : LexLt(<<t[x][1], t[x][4]>>, <<t[x + 1][1], t[x + 1][4]>>)
Involution == (Sc.tool = "exchange") => \A n \in DOMAIN fs : LET e == Exchanged(fs[n]) IN
  /\ Ordered(e.rows)
  /\ LET b == Exchanged(e) IN b.label = fs[n].label /\ Range(b.rows) = Range(fs[n].rows) /\ (Ordered(fs[n].rows) => b = fs[n])
\* every realisation is one row, and no row mixes realisations
Realisations == (Sc.tool = "combine") => \A n \in DOMAIN fs : n.kind = "vector" =>
  /\ \A x \in DOMAIN fs[n].raw : Len(fs[n].raw[x]) = Len(fs[n].bins) /\ Len(fs[n].shot[x]) = Len(fs[n].bins)
\* the parameters that are not named stay as they are; generating again changes nothing
Local == (Sc.tool \in {"ini", "yml"}) => \A x \in DOMAIN Sc.ops : LET o == Sc.ops[x] IN o.src \in DOMAIN fs =>
  IF Sc.tool = "ini"
  THEN LET t == fs[o.src] g == IniGen(t, o.pars) IN
       /\ Keys(g) = Keys(t) \cup Named(o.pars)
       /\ \A q \in Keys(g) : Reading(g)[q] = IF q \in Named(o.pars) THEN Last(o.pars, q) ELSE Reading(t)[q]
       /\ IniGen(g, o.pars) = g
  ELSE LET y == fs[o.src] a == ApplyAll(y, o.pars) IN a.ok =>
       /\ DOMAIN a.tree = DOMAIN y \cup Named(o.pars)
       /\ \A q \in DOMAIN y \ Named(o.pars) : a.tree[q] = y[q]
\* a call writes one file at most, none when it fails, and never removes any
OneFile == [][DOMAIN fs \subseteq DOMAIN fs' /\ Cardinality({n \in DOMAIN fs' : n \notin DOMAIN fs \/ fs'[n] # fs[n]}) <= 1
              /\ (log'[Len(log')].out \in {"error", "nothing to do"} => fs' = fs)]_vars
=============================================================================
