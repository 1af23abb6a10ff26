------------------------------- MODULE DNorm --------------------------------
(***************************************************************************)
(* Design model: what the normalisation formulas mean.  A bag of frame     *)
(* pairs (x, y) grows pair by pair (the transition), the sums grow with    *)
(* it, and at every step the normalised results equal what they stand for  *)
(* in terms of the pairs:                                                  *)
(*   standard            mean of conj(x)*y minus the background product    *)
(*   subtracted          mean of conj(x-b1)*(y-b2)                         *)
(*   compensated         covariance of the pairs                           *)
(*   structured, ...     scale - half of the mean squared distance of the  *)
(*                       (baseline-shifted, subtracted, centred) signals   *)
(* so they do not change when both signal and background move, and the     *)
(* difference data give the same as the correlation data.                  *)
(***************************************************************************)
EXTENDS Norm
CONSTANTS Vals, Bgs, MaxPairs
VARIABLES pairs, b1, b2, v
vars == <<pairs, b1, b2, v>>
G == Vals \X Vals                \* Gaussian integers
Init == pairs = <<>> /\ b1 \in Bgs \X Bgs /\ b2 \in Bgs \X Bgs /\ v \in {2, 4}
Next == /\ Len(pairs) < MaxPairs
        /\ \E x \in G, y \in G : pairs' = Append(pairs, <<x, y>>)
        /\ UNCHANGED <<b1, b2, v>>
Spec == Init /\ [][Next]_vars

c == Len(pairs)
\* the sums that the data carry
Elem(p, a, b) ==
  LET S(F(_)) == Sum([i \in DOMAIN p |-> F(p[i])])
  IN [dr |-> S(LAMBDA q : CRe(q[1][1], q[1][2], q[2][1], q[2][2])),
      di |-> S(LAMBDA q : CIm(q[1][1], q[1][2], q[2][1], q[2][2])), c |-> Len(p),
      sq |-> S(LAMBDA q : Sq(q[1][1]) + Sq(q[1][2]) + Sq(q[2][1]) + Sq(q[2][2])),
      m1r |-> S(LAMBDA q : q[1][1]), m1i |-> S(LAMBDA q : q[1][2]),
      m2r |-> S(LAMBDA q : q[2][1]), m2i |-> S(LAMBDA q : q[2][2]),
      b1r |-> a[1], b1i |-> a[2], b2r |-> b[1], b2i |-> b[2], v1 |-> v, v2 |-> v]
Diff(p, a, b) == [Elem(p, a, b) EXCEPT !.dr = Sum([i \in DOMAIN p |->
                    Sq(p[i][2][1] - p[i][1][1]) + Sq(p[i][2][2] - p[i][1][2])])]
e == Elem(pairs, b1, b2)
d == Diff(pairs, b1, b2)
Minus(p, a, b) == [i \in DOMAIN p |-> <<<<p[i][1][1] - a[1], p[i][1][2] - a[2]>>, <<p[i][2][1] - b[1], p[i][2][2] - b[2]>>>>]
\* times 2*c^2
MeanProd(p, C(_,_,_,_)) == 2 * c * Sum([i \in DOMAIN p |-> C(p[i][1][1], p[i][1][2], p[i][2][1], p[i][2][2])])
MeanDist(p) == 2 * c * Sum([i \in DOMAIN p |-> Sq(p[i][2][1] - p[i][1][1]) + Sq(p[i][2][2] - p[i][1][2])])
Centred(p) ==    \* scaled by c: c*x - sum x
    LET s(k, l) == Sum([i \in DOMAIN p |-> p[i][k][l]])
    IN [i \in DOMAIN p |-> <<<<c*p[i][1][1] - s(1,1), c*p[i][1][2] - s(1,2)>>, <<c*p[i][2][1] - s(2,1), c*p[i][2][2] - s(2,2)>>>>]
Zero == <<0, 0>>

Standard     == Simple(1, e) = MeanProd(pairs, CRe) - 2*c*c*CRe(b1[1], b1[2], b2[1], b2[2])
Subtracted   == /\ Simple(5, e) = MeanProd(Minus(pairs, b1, b2), CRe)
                /\ Simple(5, Turn(e)) = MeanProd(Minus(pairs, b1, b2), CIm)
Compensated  == c = 0 \/ (c * c) * Simple(9, e) = MeanProd(Centred(pairs), CRe)
Structured   == Simple(6, e) = 2*c*c*v - (MeanDist(Minus(pairs, b1, b2)) \div 2)
Structured0  == Simple(2, e) = 2*c*c*v - (MeanDist(pairs) \div 2) + c*c*(Sq(b1[1]-b2[1]) + Sq(b1[2]-b2[2]))
StructComp   == c = 0 \/ (c*c) * (Simple(10, e) - 2*c*c*v) = -(MeanDist(Centred(pairs)) \div 2)
DiffIsStruct == \A n \in {2, 6} : \A m \in {"corr", "diff"} :
                   Result(n, d, TRUE, m, 0, TRUE) = Result(n, e, FALSE, m, 0, TRUE)
ShiftFree ==     \* moving signal and background together changes nothing
    \A s \in {<<1, 0>>, <<0, 2>>} :
       LET p2 == [i \in DOMAIN pairs |-> <<<<pairs[i][1][1] + s[1], pairs[i][1][2] + s[2]>>, pairs[i][2]>>]
           e2 == Elem(p2, <<b1[1] + s[1], b1[2] + s[2]>>, b2)
       IN /\ Simple(5, e2) = Simple(5, e) /\ Simple(6, e2) = Simple(6, e)
          /\ Simple(9, e2) = Simple(9, e) /\ Simple(10, e2) = Simple(10, e)
          /\ Simple(6, Turn(e2)) = Simple(6, Turn(e)) /\ Simple(10, Turn(e2)) = Simple(10, Turn(e))
\* same signals in both cameras at zero delay: every structured result is the scale
Identical == (\A i \in DOMAIN pairs : pairs[i][1] = pairs[i][2]) /\ b1 = b2 =>
                \A n \in {2, 6, 10} : Simple(n, e) = 2*c*c*v
Blends == \A W \in 0..4 : Blend(7, e, W) = W * Simple(6, e) + (4 - W) * Simple(5, e)
=============================================================================
