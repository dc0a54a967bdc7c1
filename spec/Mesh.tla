-------------------------------- MODULE Mesh --------------------------------
(* Periodic B-spline deposit of weighted particles on a mesh.              *)
(* Positions are integers in units of 1/q[a] of a cell; a deposit is an     *)
(* exact integer over the common denominator Den(p, q).  Particles are      *)
(* deposited one at a time, in any order.  With interlacing every particle  *)
(* is also deposited, moved by half a cell per axis, on a shadow mesh.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ax == 1..3
Abs(x) == IF x < 0 THEN -x ELSE x

\* B-spline of order p at distance t/q cells: numerator over KDen(p, q)
KDen(p, q) == CASE p = 1 -> 1 [] p = 2 -> q [] p = 3 -> 8*q*q [] p = 4 -> 6*q*q*q
Kern(p, q, t) ==
  LET a == Abs(t) IN
  CASE p = 1 -> IF 2*t >= -q /\ 2*t < q THEN 1 ELSE 0
    [] p = 2 -> IF a < q THEN q - a ELSE 0
    [] p = 3 -> IF 2*a <= q THEN 6*q*q - 8*a*a
                ELSE IF 2*a < 3*q THEN (3*q - 2*a)*(3*q - 2*a) ELSE 0
    [] p = 4 -> IF a <= q THEN 4*q*q*q - 6*q*a*a + 3*a*a*a
                ELSE IF a < 2*q THEN (2*q - a)*(2*q - a)*(2*q - a) ELSE 0

\* what one particle at x leaves on cell c of a periodic axis of n cells
Win(p, q, n, x, c) ==
  LET W(m) == Kern(p, q, x - (c + m*n)*q)
  IN W(-3) + W(-2) + W(-1) + W(0) + W(1) + W(2) + W(3)

Den(s) == KDen(s.p, s.q[1]) * KDen(s.p, s.q[2]) * KDen(s.p, s.q[3])
Cells(s) == (0..s.n[1]-1) \X (0..s.n[2]-1) \X (0..s.n[3]-1)
\* a deposit: the three one-axis windows of the particle
Rows(s, x) == [a \in Ax |-> [c \in 0..s.n[a]-1 |-> Win(s.p, s.q[a], s.n[a], x[a], c)]]
Half(s, x) == [a \in Ax |-> x[a] + s.q[a] \div 2]

Deposit(s, f, x, w) ==
  LET r == Rows(s, x) IN
  [c \in Cells(s) |-> LET k == r[1][c[1]] * r[2][c[2]] * r[3][c[3]] IN
     <<f[c][1] + k*w[1], f[c][2] + k*w[2]>>]
Zero(s) == [c \in Cells(s) |-> <<0, 0>>]

RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + SumSet(f, S \ {e})
Total(s, f, j) == SumSet([c \in Cells(s) |-> f[c][j]], Cells(s))

\* the closed form the deposits must add up to
Closed(s, f, todo, half) ==
  \A c \in Cells(s) : \A j \in 1..2 :
     f[c][j] = SumSet([i \in DOMAIN s.ps |->
        LET x == IF half THEN Half(s, s.ps[i].x) ELSE s.ps[i].x IN
        Win(s.p, s.q[1], s.n[1], x[1], c[1]) * Win(s.p, s.q[2], s.n[2], x[2], c[2])
          * Win(s.p, s.q[3], s.n[3], x[3], c[3]) * s.ps[i].w[j]], (DOMAIN s.ps) \ todo)
=============================================================================
