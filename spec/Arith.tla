------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* Integer arithmetic shared by every module of the cddm specification.    *)
(* All data are integers (Gaussian integers are pairs of integer arrays),  *)
(* so that the implementation's floating point results are exact and can   *)
(* be compared with "=".  Special results are encoded as integers beyond   *)
(* every legal value (TLC cannot compare an integer with a string).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, TLC

NONINT == 2000000001     \* finite, but not an integer
NAN    == 2000000002
INF    == 2000000003
BIG    == 2000000004     \* integer, |x| >= 2^30

SumF(f, S) == FoldFunctionOnSet(+, 0, f, S)
Sum(f)     == FoldFunctionOnSet(+, 0, f, DOMAIN f)

Abs(x)    == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
MaxS(S)   == CHOOSE x \in S : \A y \in S : y <= x
MinS(S)   == CHOOSE x \in S : \A y \in S : x <= y
Range1(f) == { f[i] : i \in DOMAIN f }
RECURSIVE Pow2(_)
Pow2(k)   == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

\* element-wise sum of two equally shaped vectors / matrices
VAdd(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
MAdd(a, b) == [p \in DOMAIN a |-> VAdd(a[p], b[p])]

\* a is an exact multiple of b (b > 0)
Divides(b, a) == (a % b) = 0
=============================================================================
