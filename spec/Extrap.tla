------------------------------- MODULE Extrap -------------------------------
(* Extrapolation of sample arrays (one- and two-dimensional) and reshaping of  *)
(* flattened three-point tables.  An array grows by one line of samples at a   *)
(* time at any of its sides, in any order; the original samples stay where     *)
(* they are.  Values of the linear and the padding rule are integers; values   *)
(* of the log-linear rules are <<s, x, y>>, meaning s 2^x 3^y with s = -1,0,1.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Functions

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES i, m, g, k
vars == <<i, m, g, k>>
Sc == Scen[i]
Grow == Sc.kind = "grow"
A == Sc.a
NR == Len(A)
NC == Len(A[1])
Log == Sc.rule \in {"loglin", "oscil"}

\* -- the continuation of a line of samples past its end p, q being the sample before p --
Cont(p, q) == IF ~Log THEN 2 * p - q
              ELSE IF p[1] = 0 THEN <<0, 0, 0>>
              ELSE <<p[1], 2 * p[2] - q[2], 2 * p[3] - q[3]>>
Col(M, j) == [r \in 1..Len(M) |-> M[r][j]]
Rev(v) == [x \in 1..Len(v) |-> v[Len(v) + 1 - x]]
\* oscillating data: a strictly rising start is continued, the start of a falling
\* array is padded, anything else is left open (powers of two only)
Mono(v, a, b) == \A x \in a..(b - 1) : v[x][2] < v[x + 1][2]
Peak(v) == CHOOSE x \in 1..Len(v) : /\ \A y \in 1..Len(v) : v[y][2] <= v[x][2]
                                    /\ \A y \in 1..(x - 1) : v[y][2] < v[x][2]
Start(v, few) == LET p == Peak(v) IN
            IF \E x \in 1..Len(v) : v[x][1] # v[1][1] THEN "open"
            ELSE IF p > few /\ Mono(v, 1, p) THEN "rise"
            ELSE IF \A x \in 1..(Len(v) - 1) : v[x][2] > v[x + 1][2] THEN "fall" ELSE "open"
Before(v, few) == IF Sc.rule # "oscil" THEN Cont(v[1], v[2])
                  ELSE IF Start(v, few) = "rise" THEN Cont(v[1], v[2]) ELSE v[1]
After(v) == LET w == Rev(v) IN Before(w, 3)
\* padding: outside the original rows (columns) the nearest constant is used
Near(c, r, n0) == c[IF r < 1 THEN 1 ELSE IF r > n0 THEN n0 ELSE r]

Ok1(p, q) == p[1] * q[1] > 0 \/ p[1] = 0
Acceptable ==
  /\ (Sc.rule = "loglin") =>
       /\ \A r \in 1..NR : Ok1(A[r][1], A[r][2]) /\ Ok1(A[r][NC], A[r][NC - 1])
       /\ (Sc.dim = 2) => \A j \in 1..NC : Ok1(A[1][j], A[2][j]) /\ Ok1(A[NR][j], A[NR - 1][j])
       /\ (Sc.cpp) => \A j \in 1..(NC - 1) : A[1][j][1] * A[1][j + 1][1] > 0
  /\ (Sc.rule = "pad" /\ Sc.dim = 2) =>
       /\ Sc.left[1] = Sc.up[1] /\ Sc.right[1] = Sc.up[NC]
       /\ Sc.left[NR] = Sc.down[1] /\ Sc.right[NR] = Sc.down[NC]

G0 == [l |-> 0, r |-> 0, u |-> 0, d |-> 0]
Init == /\ i \in DOMAIN Scen /\ k = 1 /\ g = G0
        /\ m = IF Grow THEN A ELSE [r \in 1..Sc.n |-> [j \in 1..Sc.n |-> -1]]
\* the row of the original array that row r of the current array is
Orig(r) == r - g.u
Left == /\ Grow /\ Acceptable /\ g.l < Sc.nc
        /\ m' = [r \in 1..Len(m) |-> <<IF Sc.rule = "pad" THEN Near(Sc.left, Orig(r), NR) ELSE Before(m[r], 2)>> \o m[r]]
        /\ g' = [g EXCEPT !.l = @ + 1] /\ UNCHANGED <<i, k>>
Right == /\ Grow /\ Acceptable /\ g.r < Sc.nc
         /\ m' = [r \in 1..Len(m) |-> Append(m[r], IF Sc.rule = "pad" THEN Near(Sc.right, Orig(r), NR) ELSE After(m[r]))]
         /\ g' = [g EXCEPT !.r = @ + 1] /\ UNCHANGED <<i, k>>
Up == /\ Grow /\ Acceptable /\ g.u < Sc.nr
      /\ m' = <<[j \in 1..Len(m[1]) |-> IF Sc.rule = "pad" THEN Near(Sc.up, j - g.l, NC) ELSE Before(Col(m, j), 2)]>> \o m
      /\ g' = [g EXCEPT !.u = @ + 1] /\ UNCHANGED <<i, k>>
Down == /\ Grow /\ Acceptable /\ g.d < Sc.nr
        /\ m' = Append(m, [j \in 1..Len(m[1]) |-> IF Sc.rule = "pad" THEN Near(Sc.down, j - g.l, NC) ELSE After(Col(m, j))])
        /\ g' = [g EXCEPT !.d = @ + 1] /\ UNCHANGED <<i, k>>

\* -- tables: entries of a flattened matrix are put one by one -----------------
Tri(n) == (n * (n + 1)) \div 2
Fits == IF Sc.shape = "triu" THEN \E n \in 0..Len(Sc.flat) : Tri(n) = Len(Sc.flat) ELSE \E n \in 0..Len(Sc.flat) : n * n = Len(Sc.flat)
Side == CHOOSE n \in 0..Len(Sc.flat) : IF Sc.shape = "triu" THEN Tri(n) = Len(Sc.flat) ELSE n * n = Len(Sc.flat)
\* the position of entry k, counted row by row
RECURSIVE At(_, _, _)
At(e, r, n) == LET w == IF Sc.shape = "triu" THEN n + 1 - r ELSE n IN
               IF e <= w THEN <<r, IF Sc.shape = "triu" THEN r - 1 + e ELSE e>> ELSE At(e - w, r + 1, n)
Put == /\ Sc.kind = "table" /\ Fits /\ k <= Len(Sc.flat)
       /\ LET p == At(k, 1, Side) IN
          m' = [r \in 1..Sc.n |-> [j \in 1..Sc.n |-> IF <<r, j>> = p \/ (Sc.shape = "triu" /\ <<j, r>> = p) THEN Sc.flat[k] ELSE m[r][j]]]
       /\ k' = k + 1 /\ UNCHANGED <<i, g>>
Next == Left \/ Right \/ Up \/ Down \/ Put
Spec == Init /\ [][Next]_vars

Full == g = [l |-> Sc.nc, r |-> Sc.nc, u |-> Sc.nr, d |-> Sc.nr]
Good == IF Grow THEN Acceptable ELSE IF Sc.kind = "table" THEN Fits
        ELSE \* an ordering of indices (from 0)
             /\ {Sc.idx[x] : x \in DOMAIN Sc.idx} = 0..(Len(Sc.flat) - 1) /\ Len(Sc.idx) = Len(Sc.flat)
             /\ \A x \in 1..(Len(Sc.idx) - 1) : Sc.flat[Sc.idx[x] + 1] <= Sc.flat[Sc.idx[x + 1] + 1]
Done == ~Good \/ (IF Grow THEN Full ELSE Sc.kind # "table" \/ k > Len(Sc.flat))
Ends(v) == <<Start(v, 2), Start(Rev(v), 3)>>
Emit == Done => PrintT(ToJson([i |-> i, ok |-> Good, m |-> m, ends |-> IF Grow /\ Sc.rule = "oscil" THEN Ends(A[1]) ELSE <<"", "">>,
                               check |-> IF Grow /\ Sc.cpp THEN
                                 LET v == A[1] n == Len(v) IN
                                 IF Log THEN <<TRUE, \A j \in 1..(n - 1) : v[j][1] * v[j + 1][1] > 0,
                                               \A j \in 1..(n - 2) : v[j + 1][2] - v[j][2] = v[j + 2][2] - v[j + 1][2] /\ v[j + 1][3] - v[j][3] = v[j + 2][3] - v[j + 1][3]>>
                                 ELSE <<\A j \in 1..(n - 2) : v[j + 1] - v[j] = v[j + 2] - v[j + 1], \A j \in 1..(n - 1) : v[j] * v[j + 1] > 0, TRUE>>
                               ELSE <<FALSE, FALSE, FALSE>>]))

\* -- properties ---------------------------------------------------------------
\* the original samples never move nor change
Kept == Grow => \A r \in 1..NR, j \in 1..NC : m[r + g.u][j + g.l] = A[r][j]
Shape == Grow => Len(m) = NR + g.u + g.d /\ \A r \in DOMAIN m : Len(m[r]) = NC + g.l + g.r
\* linear and log-linear data continue exactly, whatever the order of the steps
E1(v, x) == IF x < 1 THEN v[1] + (v[1] - v[2]) * (1 - x) ELSE IF x > Len(v) THEN v[Len(v)] + (v[Len(v)] - v[Len(v) - 1]) * (x - Len(v)) ELSE v[x]
Closed == (Grow /\ Sc.rule = "lin" /\ Full) => \A r \in DOMAIN m, j \in DOMAIN m[1] :
            m[r][j] = E1([s \in 1..NR |-> E1(A[s], j - g.l)], r - g.u) \/ Sc.dim = 1
Exact == (Grow /\ Sc.rule = "lin" /\ Full /\ Sc.dim = 1) => \A j \in DOMAIN m[1] : m[1][j] = E1(A[1], j - g.l)
Symmetric == (Sc.kind = "table" /\ Done /\ Good /\ Sc.shape = "triu") => \A r, j \in 1..Sc.n : m[r][j] = m[j][r]
Filled == (Sc.kind = "table" /\ Done /\ Good) => \A r, j \in 1..Sc.n : m[r][j] # -1
=============================================================================
