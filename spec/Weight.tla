------------------------------- MODULE Weight -------------------------------
(***************************************************************************)
(* The noise model behind weighted normalization.  Two cameras see complex *)
(* Gaussian fields f1, f2 with mean b1, b2, variances 1-d, 1+d and         *)
(* correlation <f1 f2*> = g.  The estimators of the correlation are        *)
(*   standard X = Re(f1* f2),  structured 1 - |f1 - f2|^2 / 2,             *)
(*   weighted X + w * (1 - S), S = (|f1|^2 + |f2|^2) / 2.                  *)
(* The second moments follow from Wick's theorem; the best weight is the   *)
(* one of least variance.  g, d, b in quarters; moments in 1/256.          *)
(***************************************************************************)
EXTENDS Integers, Sequences

CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CConj(x) == <<x[1], 0 - x[2]>>
CSc(k, x) == <<k * x[1], k * x[2]>>

\* G[i][j] = <a_i* a_j>
Gram(g, d) == <<<<<<4 - d, 0>>, CConj(g)>>, <<g, <<4 + d, 0>>>>>>
\* covariance of f_i* f_j with f_k* f_l (in 1/64)
Cov4(G, b, i, j, k, l) ==
    CAdd(CSc(4, CMul(G[i][l], G[k][j])),
         CAdd(CMul(G[i][l], CMul(CConj(b[k]), b[j])), CMul(G[k][j], CMul(CConj(b[i]), b[l]))))
RECURSIVE CSum(_, _)
CSum(F(_), s) == IF s = <<>> THEN <<0, 0>> ELSE CAdd(F(Head(s)), CSum(F, Tail(s)))
CrossPairs == <<<<1, 2>>, <<2, 1>>>>
OwnPairs == <<<<1, 1>>, <<2, 2>>>>
Moment(G, b, A, B) == CSum(LAMBDA p : CSum(LAMBDA q : Cov4(G, b, p[1], p[2], q[1], q[2]), B), A)[1]
VarX(g, d, b) == Moment(Gram(g, d), b, CrossPairs, CrossPairs)
VarS(g, d, b) == Moment(Gram(g, d), b, OwnPairs, OwnPairs)
CovXS(g, d, b) == Moment(Gram(g, d), b, CrossPairs, OwnPairs)
NoMean == <<<<0, 0>>, <<0, 0>>>>

\* variance with weight u/8, in 1/16384
Variance(u, g, d, b) == 64 * VarX(g, d, b) + u * u * VarS(g, d, b) - 16 * u * CovXS(g, d, b)
\* the best weight is CovXS/VarS; turned by a right angle, the imaginary part is the real one
Turned(g) == <<g[2], 0 - g[1]>>
Possible(g, d) == g[1] * g[1] + g[2] * g[2] <= 16 - d * d /\ d \in -4..4
=============================================================================
