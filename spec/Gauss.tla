------------------------------- MODULE Gauss -------------------------------
(* The functions x^l y^l' sum_ij c_ij x^(2i) y^(2j) exp(-(x^2 + y^2)/2) under  *)
(* the (double) spherical Bessel transforms: c has its generalised Laguerre     *)
(* image.  In one dimension c has one row.                                      *)
EXTENDS Rat, TLC

RECURSIVE GFact(_)
GFact(n) == IF n = 0 THEN 1 ELSE n * GFact(n - 1)
RECURSIVE RSumF(_, _)
RSumF(g, n) == IF n = 0 THEN RZero ELSE RAdd(g[n], RSumF(g, n - 1))
RSumSeq(g) == RSumF(g, Len(g))
RInt(n, e) == IF e >= 0 THEN RPow(R(n), e) ELSE RInv(RPow(R(n), -e))
RPowZ(a, e) == IF e >= 0 THEN RPow(a, e) ELSE RPow(RInv(a), -e)

\* -- Gaussian family --------------------------------------------------------
\* binomial coefficient of the half-integer j + l + 1/2 over m
GBinom(j, l, m) == LET RECURSIVE B(_)
                      B(x) == IF x = 0 THEN ROne ELSE RMul(B(x - 1), Red(2 * (j - x + 1) + 2 * l + 1, 2 * x))
                  IN B(m)
\* x^(l + 2j) exp(-x^2/2) has in its transform the term k^(l + 2t) exp(-k^2/2) times
Img(l, j, t) == IF t > j THEN RZero
                ELSE RMul(Red((IF t % 2 = 0 THEN 1 ELSE -1) * (2^j) * GFact(j), (2^t) * GFact(t)), GBinom(j, l, j - t))
ImgRow(l, row) == TLCEval([t \in 1..Len(row) |-> RSumSeq([j \in 1..Len(row) |-> RMul(row[j], Img(l, j - 1, t - 1))])])
Transp(c) == [b \in 1..Len(c[1]) |-> [a \in 1..Len(c) |-> c[a][b]]]
Image(c, ell) == LET r == TLCEval([a \in 1..Len(c) |-> ImgRow(ell[Len(ell)], c[a])])
                     rt == TLCEval(Transp(r))
                 IN IF Len(ell) = 1 THEN r
                    ELSE TLCEval(Transp(TLCEval([b \in 1..Len(rt) |-> ImgRow(ell[1], rt[b])])))
Scaled(c, x) == TLCEval([a \in 1..Len(c) |-> [b \in 1..Len(c[1]) |-> RMul(x, c[a][b])]])
Plus(c, d) == TLCEval([a \in 1..Len(c) |-> [b \in 1..Len(c[1]) |-> RAdd(c[a][b], d[a][b])]])
\* the image of the image is the function
ASSUME \A l \in 0..6 : \A n \in 1..4 : \A j \in 1..n :
  LET e == [t \in 1..n |-> IF t = j THEN ROne ELSE RZero] IN ImgRow(l, ImgRow(l, e)) = e
=============================================================================
