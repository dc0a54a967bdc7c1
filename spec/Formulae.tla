------------------------------ MODULE Formulae ------------------------------
(* Window-convolution formulae.  A formula lists, for one windowed multipole,  *)
(* terms (window multipole Q, unwindowed multipole Z, coefficient).  A         *)
(* collection is read entry by entry; it ends up with the multipoles, without  *)
(* repetition and in order (total degree last in the index first, then the     *)
(* other degrees), the window and the unwindowed multipoles its terms need     *)
(* (the integral constraint "ic" after them), and the terms as listed.         *)
(* Coefficients of three-point formulae are exact rationals: Wigner 3-j and     *)
(* 9-j symbols are integers times roots of prime powers, and the roots cancel.  *)
EXTENDS Coupling, Json, IOUtils

Scen == JsonDeserialize(IOEnv.SCEN)
Primes == <<2, 3, 5, 7, 11, 13, 17, 19, 23>>
RECURSIVE FExp(_, _)
FExp(n, p) == IF n < p THEN 0 ELSE (n \div p) + FExp(n \div p, p)
\* exponents of the square of the triangle coefficient
DExp(a, b, c) == [q \in DOMAIN Primes |-> LET E(n) == FExp(n, Primes[q]) IN E(a + b - c) + E(a - b + c) + E(b + c - a) - E(a + b + c + 1)]
PPow(p, e) == IF e >= 0 THEN R(IPow(p, e)) ELSE <<1, IPow(p, -e)>>
RECURSIVE RProd(_, _)
RProd(e, q) == IF q = 0 THEN ROne ELSE RMul(PPow(Primes[q], e[q]), RProd(e, q - 1))
D2(a, b, c) == RProd(DExp(a, b, c), Len(Primes))
\* the symbol without orders: an integer times the root of prime powers
H(a, b, c) == IF ~NonVanishing(<<a, b, c>>) THEN 0 ELSE
  LET lo == MaxI(0, MaxI(b - c, a - c))
      hi == MinI(a + b - c, MinI(a, b))
      RECURSIVE T(_)
      T(t) == IF t > hi THEN 0 ELSE Sign(t) * Binom(a + b - c, t) * Binom(a - b + c, a - t) * Binom(b + c - a, b - t) + T(t + 1)
  IN Sign(a - b) * T(lo)
HExp(a, b, c) == [q \in DOMAIN Primes |-> LET E(n) == FExp(n, Primes[q]) IN
                    2 * (E(a) + E(b) + E(c)) - E(a + b - c) - E(a - b + c) - E(b + c - a) - E(a + b + c + 1)]
Bin(n, r) == IF r < 0 \/ r > n THEN 0 ELSE Binom(n, r)
\* 6-j symbol times D(abc) / (D(aef) D(dbf) D(dec)), an integer
Six(a, b, c, d, e, f) ==
  LET lo == MaxI(MaxI(a + b + c, c + d + e), MaxI(b + d + f, a + e + f))
      hi == MinI(a + b + d + e, MinI(b + c + e + f, c + a + f + d))
      RECURSIVE T(_)
      T(t) == IF t > hi THEN 0 ELSE Sign(t) * Bin(t + 1, t - a - b - c) * Bin(a + b - c, t - c - d - e) * Bin(a - b + c, t - b - d - f) * Bin(b + c - a, t - a - e - f) + T(t + 1)
  IN IF Triangle(a, b, c) /\ Triangle(a, e, f) /\ Triangle(d, b, f) /\ Triangle(d, e, c) THEN T(lo) ELSE 0
\* 9-j symbol {a b c; d e f; g h j}: a rational times the root of prime powers
Nine(a, b, c, d, e, f, g, h, j) ==
  IF ~(Triangle(a, b, c) /\ Triangle(d, e, f) /\ Triangle(g, h, j) /\ Triangle(a, d, g) /\ Triangle(b, e, h) /\ Triangle(c, f, j)) THEN RZero
  ELSE LET X == {x \in 0..12 : Triangle(a, j, x) /\ Triangle(f, b, x) /\ Triangle(d, x, h)}
           f0 == [x \in X |-> RMul(RMul3(D2(a, j, x), D2(f, b, x), D2(d, x, h)),
                                   R((2 * x + 1) * Six(a, b, c, f, j, x) * Six(d, e, f, b, x, h) * Six(g, h, j, x, a, d)))]
       IN RSum(X, f0)
NineExp(a, b, c, d, e, f, g, h, j) == [q \in DOMAIN Primes |->
   DExp(f, j, c)[q] + DExp(b, e, h)[q] + DExp(g, a, d)[q] - DExp(a, b, c)[q] - DExp(d, e, f)[q] - DExp(g, h, j)[q]]
\* coefficient of Q_q Z_z in the windowed multipole l
Coeff(l, qq, z) ==
  LET nine == Nine(qq[1], qq[2], qq[3], z[1], z[2], z[3], l[1], l[2], l[3])
      top == H(l[1], l[2], l[3]) * H(l[1], z[1], qq[1]) * H(l[2], z[2], qq[2]) * H(l[3], z[3], qq[3])
      e == [q \in DOMAIN Primes |->
              NineExp(qq[1], qq[2], qq[3], z[1], z[2], z[3], l[1], l[2], l[3])[q] + HExp(l[1], l[2], l[3])[q] - HExp(z[1], z[2], z[3])[q] - HExp(qq[1], qq[2], qq[3])[q]
              + HExp(l[1], z[1], qq[1])[q] + HExp(l[2], z[2], qq[2])[q] + HExp(l[3], z[3], qq[3])[q]]
  IN IF top = 0 \/ nine = RZero THEN RZero
     ELSE RMul(RMul(RMul(nine, Red(top, H(z[1], z[2], z[3]) * H(qq[1], qq[2], qq[3]))), R((2 * l[1] + 1) * (2 * l[2] + 1) * (2 * l[3] + 1))),
               RProd([q \in DOMAIN Primes |-> e[q] \div 2], Len(Primes)))
\* plane-parallel two-point statistics
Coeff2(l, qq, z) == LET x == H(l, qq, z) IN IF x = 0 THEN RZero ELSE RMul(RMul(R((2 * l + 1) * x), RProd(HExp(l, qq, z), Len(Primes))), R(x))

\* -- the order of multipoles ---------------------------------------------------
Less(a, b) == LET n == Len(a) key(x) == <<x[n]>> \o SubSeq(x, 1, n - 1) IN
              \E j \in 1..n : key(a)[j] < key(b)[j] /\ \A x \in 1..(j - 1) : key(a)[x] = key(b)[x]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : \A b \in S \ {a} : Less(a, b) IN <<a>> \o Sorted(S \ {a})
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : TRUE IN <<a>> \o SetToSeq(S \ {a})

VARIABLES i, e, t, form
vars == <<i, e, t, form>>
Sc == Scen[i]
Entry == Sc.entries[e]
Init == i \in DOMAIN Scen /\ e = 1 /\ t = 1 /\ form = <<>>
Building == Sc.kind = "build" /\ e <= Len(Sc.entries)
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Term(x) == [q |-> x.q, z |-> x.z, c |-> Red(x.c[1], x.c[2])]
\* a repeated entry, in whatever notation, starts its formula anew
Take == /\ Building /\ t <= Len(Entry.terms)
        /\ form' = Put(form, Entry.l, (IF t = 1 THEN <<>> ELSE form[Entry.l]) \o <<Term(Entry.terms[t])>>)
        /\ t' = t + 1 /\ UNCHANGED <<i, e>>
Skip == /\ Building /\ t > Len(Entry.terms)
        /\ form' = IF Entry.terms = <<>> THEN Put(form, Entry.l, <<>>) ELSE form
        /\ e' = e + 1 /\ t' = 1 /\ UNCHANGED i
Next == Take \/ Skip
Spec == Init /\ [][Next]_vars
Done == ~Building
Terms == {x : x \in UNION {{form[l][j] : j \in DOMAIN form[l]} : l \in DOMAIN form}}

\* -- typesetting ---------------------------------------------------------------
Digits(x) == IF x = <<>> THEN "" ELSE LET RECURSIVE D(_)
                                          D(j) == IF j > Len(x) THEN "" ELSE ToString(x[j]) \o D(j + 1) IN D(1)
Index(x) == IF x = <<-1>> THEN "\\mathrm{ic}" ELSE "{" \o Digits(x) \o "}"
Amount(c) == IF c[2] = 1 THEN (IF AbsI(c[1]) = 1 THEN "" ELSE ToString(AbsI(c[1])) \o " ") ELSE "\\frac{" \o ToString(AbsI(c[1])) \o "}{" \o ToString(c[2]) \o "} "
RECURSIVE Tex(_, _)
Tex(f, j) == IF j > Len(f) THEN ""
             ELSE LET x == f[j]
                      s == IF x.c[1] < 0 THEN "- " ELSE IF j > 1 THEN "+ " ELSE ""
                  IN (IF x.c[1] = 0 THEN "" ELSE (IF j > 1 THEN " " ELSE "") \o s \o Amount(x.c) \o "Q_" \o Index(x.q) \o " \\zeta_" \o Index(x.z)) \o Tex(f, j + 1)

\* -- published formulae ---------------------------------------------------------
Evens == {0, 2, 4}
Wilson(l) == {[q |-> <<q>>, z |-> <<z>>, c |-> Coeff2(l, q, z)] : q \in 0..8, z \in Evens}
Sugiyama(l) == LET S(q, z) == [q |-> q, z |-> z, c |-> Coeff(l, q, z)]
                   o == <<0, 0, 0>> a == <<1, 1, 0>> b == <<2, 0, 2>> c == <<1, 1, 2>> d == <<0, 2, 2>> IN
  (IF l = o THEN {S(o, o), S(a, a)}
   ELSE IF l = a THEN {S(o, a), S(a, o)}
   ELSE IF l = b THEN {S(o, b), S(b, o), S(a, c), S(c, a)}
   ELSE {S(o, c), S(c, o), S(d, a), S(b, a), S(a, d), S(a, b)})
  \cup {[q |-> l, z |-> <<-1>>, c |-> <<-1, 1>>]}
Named == [wilson |-> [x \in {<<0>>, <<2>>, <<4>>} |-> {y \in Wilson(x[1]) : y.c # RZero}],
          sugiyama |-> [x \in {<<0, 0, 0>>, <<1, 1, 0>>, <<2, 0, 2>>, <<1, 1, 2>>} |-> Sugiyama(x)]]
\* -- a listing of the terms of one multipole ------------------------------------
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
Before(how, x, y) ==
  LET c == IF RLt(y.c, x.c) THEN -1 ELSE IF RLt(x.c, y.c) THEN 1 ELSE 0          \* larger coefficients first
      z == IF LexLess(x.z, y.z) THEN -1 ELSE IF LexLess(y.z, x.z) THEN 1 ELSE 0
      q == IF LexLess(x.q, y.q) THEN -1 ELSE IF LexLess(y.q, x.q) THEN 1 ELSE 0
      k == CASE how = "c" -> <<c, z, q>> [] how = "u" -> <<z, q, c>> [] how = "w" -> <<q, z, c>>
  IN \E j \in 1..3 : k[j] < 0 /\ \A m \in 1..(j - 1) : k[m] = 0
Listing(l, Q, Z, how) ==
  LET S == TLCEval({x \in {[q |-> q, z |-> z, c |-> Coeff(l, q, z)] : q \in Q, z \in Z} : x.c # RZero})
      RECURSIVE L(_)
      L(X) == IF X = {} THEN <<>> ELSE LET a == CHOOSE a \in X : \A b \in X \ {a} : Before(how, a, b) IN <<a>> \o L(X \ {a})
  IN L(S)
Range(f) == {f[x] : x \in DOMAIN f}

Result == CASE Sc.kind = "build" -> [l |-> Sorted(DOMAIN form), q |-> Sorted({x.q : x \in Terms}), z |-> Sorted({x.z : x \in Terms} \ {<<-1>>}),
                                     ic |-> \E x \in Terms : x.z = <<-1>>, terms |-> [j \in 1..Cardinality(DOMAIN form) |-> form[Sorted(DOMAIN form)[j]]],
                                     tex |-> [j \in 1..Cardinality(DOMAIN form) |-> Tex(form[Sorted(DOMAIN form)[j]], 1)]]
            [] Sc.kind = "coeff" -> [c |-> IF Sc.z = <<-1>> THEN (IF Sc.q = Sc.l THEN <<-1, 1>> ELSE RZero) ELSE Coeff(Sc.l, Sc.q, Sc.z)]
            [] Sc.kind = "order" -> [cmp |-> [x \in DOMAIN Sc.m |-> [y \in DOMAIN Sc.m |->
                                       IF Sc.m[x] = Sc.m[y] THEN "eq" ELSE IF Len(Sc.m[x]) # Len(Sc.m[y]) THEN "no" ELSE IF Less(Sc.m[x], Sc.m[y]) THEN "lt" ELSE "gt"]]]
            [] Sc.kind = "list" -> [list |-> Listing(Sc.l, Range(Sc.q), Range(Sc.z), Sc.sort)]
            [] Sc.kind = "named" -> LET N == Named[Sc.name] IN
                 [l |-> Sorted(DOMAIN N), terms |-> [j \in 1..Cardinality(DOMAIN N) |-> SetToSeq(N[Sorted(DOMAIN N)[j]])]]
Emit == Done => PrintT(ToJson([i |-> i, r |-> Result]))

\* -- properties -----------------------------------------------------------------
\* exactly one of <, =, > holds, and < is transitive
Total == (Sc.kind = "order") => \A x, y \in DOMAIN Sc.m : LET a == Sc.m[x] b == Sc.m[y] IN Len(a) = Len(b) =>
            /\ (a = b /\ ~Less(a, b) /\ ~Less(b, a)) \/ (a # b /\ (Less(a, b) <=> ~Less(b, a)))
            /\ \A w \in DOMAIN Sc.m : (Len(Sc.m[w]) = Len(a) /\ Less(a, b) /\ Less(b, Sc.m[w])) => Less(a, Sc.m[w])
\* a window without structure changes nothing; window and statistic are interchangeable; so are the two legs
Sw(x) == <<x[2], x[1], x[3]>>
Laws == (Sc.kind = "coeff" /\ Sc.z # <<-1>>) =>
          /\ (Sc.q = Zero3 /\ NonVanishing(Sc.l)) => Coeff(Sc.l, Sc.q, Sc.z) = IF Sc.l = Sc.z THEN ROne ELSE RZero
          /\ Coeff(Sc.l, Sc.q, Sc.z) = Coeff(Sc.l, Sc.z, Sc.q)
          /\ Coeff(Sc.l, Sc.q, Sc.z) = Coeff(Sw(Sc.l), Sw(Sc.q), Sw(Sc.z))
\* the formulae of a collection are those of the last entries
Covers == (Done /\ Sc.kind = "build") => DOMAIN form = {Sc.entries[x].l : x \in DOMAIN Sc.entries}
=============================================================================
