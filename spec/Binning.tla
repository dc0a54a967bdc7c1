------------------------------ MODULE Binning ------------------------------
(* The binning object: settings, and the edges they determine.  A number is *)
(* an affine pair <<x, y>> meaning x + y*pi with rational x, y.  An edge is  *)
(* either such a number or the i-th of n geometric steps from a to b.        *)
EXTENDS Rat, FiniteSets, TLC, Json

CONSTANTS Spaces, Schemes, Ranges, Counts, Grids, Customs, Meshes, Depth, Lang, Sim

VARIABLES space, scheme, meshpad, bins, last, hist
vars == <<space, scheme, meshpad, bins, last, hist>>

Num(x) == <<x, RZero>>
Pi(y) == <<RZero, y>>
AAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
ASub(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
AMul(r, a) == <<RMul(r, a[1]), RMul(r, a[2])>>
\* sign of x + y*pi, with 3 < pi < 22/7 (undecided in between: never in the pools used)
Positive(a) ==
  LET x == a[1] y == a[2] IN
  IF x[1] >= 0 /\ y[1] >= 0 THEN x[1] > 0 \/ y[1] > 0
  ELSE IF x[1] <= 0 /\ y[1] <= 0 THEN FALSE
  ELSE LET q == RDiv(RNeg(x), y) IN      \* compare pi with q > 0
       IF y[1] > 0 THEN RLe(q, R(3)) ELSE RLe(<<22, 7>>, q)
Less(a, b) == Positive(ASub(b, a))

Lin(x) == [k |-> "lin", x |-> x]
Geo(a, b, i, n) == IF i = 0 THEN Lin(a) ELSE IF i = n THEN Lin(b) ELSE [k |-> "geo", a |-> a, b |-> b, i |-> i, n |-> n]
LinEdges(a, b, n) == [i \in 1..(n+1) |-> Lin(AAdd(a, AMul(<<i - 1, n>>, ASub(b, a))))]
GeoEdges(a, b, n) == [i \in 1..(n+1) |-> Geo(a, b, i - 1, n)]

NPad == 5
\* padding width of the object: library default, or set by the mesh it was made for
Pad(sp, mp) == IF mp # <<>> THEN
                  IF sp = "fourier" THEN Pi(RMul(<<1005, 1000>>, <<2, mp[1]>>))
                  ELSE Num(RMul(<<1005, 1000>>, <<mp[1], mp[2]>>))
               ELSE IF sp = "fourier" THEN Num(<<1, 1000>>) ELSE Num(R(10))
PadEdges(sp, mp) == [i \in 1..NPad |-> Lin(AMul(R(i - 1), Pad(sp, mp)))]

Valid(sp, sc, mp, lo, hi, n) ==
  /\ sp \in {"fourier", "config"} /\ lo[1] >= 0 /\ n > 0 /\ RLt(lo, hi)
  /\ sc \in {"lin", "log", "linpad", "logpad"}
  /\ sc = "log" => lo[1] > 0
  /\ sc \in {"linpad", "logpad"} => n > NPad /\ Less(AMul(R(NPad), Pad(sp, mp)), Num(hi))
Edges(sp, sc, mp, lo, hi, n) ==
  CASE sc = "lin" -> LinEdges(Num(lo), Num(hi), n)
    [] sc = "log" -> GeoEdges(Num(lo), Num(hi), n)
    [] sc = "linpad" -> PadEdges(sp, mp) \o LinEdges(AMul(R(NPad), Pad(sp, mp)), Num(hi), n - NPad)
    [] sc = "logpad" -> PadEdges(sp, mp) \o GeoEdges(AMul(R(NPad), Pad(sp, mp)), Num(hi), n - NPad)

Unset == [set |-> FALSE]
Bins(lo, hi, n, e) == [set |-> TRUE, lo |-> lo, hi |-> hi, n |-> n, e |-> e]

Try(sp, sc, mp, lo, hi, n) ==
  IF Valid(sp, sc, mp, lo, hi, n) THEN Bins(Num(lo), Num(hi), n, Edges(sp, sc, mp, lo, hi, n)) ELSE Unset

\* all choices when exploring exhaustively, one random choice when simulating
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

Log == hist' = Append(hist, [ev |-> last', space |-> space', scheme |-> scheme', bins |-> bins'])
Room == Len(hist) < Depth
SetBins == \E r \in Pick(Ranges), n \in Pick(Counts) :
   /\ bins' = Try(space, scheme, meshpad, r[1], r[2], n)
   /\ last' = [op |-> "set", lo |-> r[1], hi |-> r[2], n |-> n, ok |-> bins'.set]
   /\ UNCHANGED <<space, scheme, meshpad>>
\* bins of the mesh: half the mesh number of equal bins, from zero to half a
\* mesh unit beyond half the box (the Nyquist wavenumber)
SetGrid == \E g \in Pick(Grids) :
   LET L == g[1] n == g[2]
       w == IF space = "fourier" THEN Pi(<<2, L>>) ELSE Num(<<L, n>>)
       top == AAdd(IF space = "fourier" THEN Pi(<<n, L>>) ELSE Num(<<L, 2>>), AMul(<<1, 2>>, w))
   IN /\ space \in {"fourier", "config"}
      /\ scheme' = "lin" /\ UNCHANGED <<space, meshpad>>
      /\ bins' = Bins(Num(RZero), top, n \div 2, LinEdges(Num(RZero), top, n \div 2))
      /\ last' = [op |-> "grid", L |-> L, ng |-> n, ok |-> TRUE]
SetCustom == \E c \in Pick(Customs) :
   /\ scheme' = "custom" /\ UNCHANGED <<space, meshpad>>
   /\ bins' = Bins(Num(c[1]), Num(c[Len(c)]), Len(c) - 1, [i \in DOMAIN c |-> Lin(Num(c[i]))])
   /\ last' = [op |-> "custom", e |-> c, ok |-> TRUE]
\* settings assigned on the object; they take effect when bins are next set
SetScheme == \E sc \in Pick(Schemes) : scheme' = sc /\ bins' = Unset /\ UNCHANGED <<space, meshpad>>
                                 /\ last' = [op |-> "scheme", v |-> sc, ok |-> TRUE]
SetSpace == \E sp \in Pick(Spaces) : space' = sp /\ bins' = Unset /\ UNCHANGED <<scheme, meshpad>>
                                 /\ last' = [op |-> "space", v |-> sp, ok |-> TRUE]
\* a new object from a parameter set; the compiled library then pads by the mesh
\* scale.  A rejected request makes no object, and the old one is kept as it was.
FromParams == \E sp \in Pick(Spaces \cap {"fourier", "config"}), sc \in Pick(Schemes \cap {"lin", "log", "linpad", "logpad"}),
                 r \in Pick(Ranges), n \in Pick(Counts), m \in Pick(Meshes) :
   LET mp == IF Lang = "cpp" THEN <<m[1], m[2]>> ELSE <<>>
       new == Try(sp, sc, mp, r[1], r[2], n)
   IN /\ r[1][1] >= 0 /\ RLt(r[1], r[2]) /\ n >= (IF sc \in {"linpad", "logpad"} THEN NPad + 2 ELSE 2)
      /\ IF new.set THEN space' = sp /\ scheme' = sc /\ meshpad' = mp /\ bins' = new
         ELSE UNCHANGED <<space, scheme, meshpad, bins>>
      /\ last' = [op |-> "params", space |-> sp, scheme |-> sc, lo |-> r[1], hi |-> r[2], n |-> n,
                  L |-> m[1], ng |-> m[2], ok |-> new.set]

Init == /\ space \in Spaces /\ scheme \in Schemes /\ meshpad = <<>> /\ bins = Unset
        /\ last = [op |-> "new"] /\ hist = <<[ev |-> last, space |-> space, scheme |-> scheme, bins |-> bins]>>
Next == Room /\ (SetBins \/ SetGrid \/ SetCustom \/ SetScheme \/ SetSpace \/ FromParams) /\ Log
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT(ToJson(hist))

\* -- properties -------------------------------------------------------------
LessE(a, b) ==
  IF a.k = "lin" /\ b.k = "lin" THEN Less(a.x, b.x)
  ELSE IF a.k = "geo" /\ b.k = "geo" THEN a.a = b.a /\ a.b = b.b /\ a.n = b.n /\ a.i < b.i /\ Less(a.a, a.b)
  ELSE IF a.k = "geo" THEN Less(a.a, a.b) /\ b.x = a.b
  ELSE Less(b.a, b.b) /\ a.x = b.a
Partition == bins.set => /\ Len(bins.e) = bins.n + 1
                         /\ \A j \in 1..bins.n : LessE(bins.e[j], bins.e[j + 1])
                         /\ bins.e[bins.n + 1] = Lin(bins.hi)
FirstEdge == bins.set => bins.e[1] = IF scheme \in {"linpad", "logpad"} THEN Lin(Num(RZero)) ELSE Lin(bins.lo)
EqualWidths == (bins.set /\ scheme = "lin") =>
   \A j \in 1..(bins.n - 1) : ASub(bins.e[j+1].x, bins.e[j].x) = ASub(bins.e[j+2].x, bins.e[j+1].x)
=============================================================================
