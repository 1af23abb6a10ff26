-------------------------------- MODULE Norm --------------------------------
(***************************************************************************)
(* Normalisation of raw correlation data.                                  *)
(*                                                                         *)
(* Flags: 1 standard, 2 structured, 3 = both = weighted, 4 background      *)
(* subtracted, 8 compensated (local means instead of the background).      *)
(*                                                                         *)
(* One element e of the raw data is a record with integer fields           *)
(*   dr, di   correlation (or difference) sum       c   number of pairs    *)
(*   sq       sum of squares                                               *)
(*   m1r,m1i,m2r,m2i   sums of the first and the second signal             *)
(*   b1r,b1i,b2r,b2i   background of both cameras                          *)
(*   v1, v2   variance of both cameras; (v1+v2)/2 is the scale             *)
(* The results are rational numbers; everything here is scaled by 2*c^2.   *)
(* DNorm shows what the formulas mean in terms of the frame pairs.         *)
(***************************************************************************)
EXTENDS Arith

Flag(norm, b) == ((norm \div b) % 2) = 1
Weighted(norm) == norm % 4 = 3

\* ---- which normalisations can be asked for
CorrNorms  == {1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15}
DiffNorms  == {2, 6}
\* data computed with request q (flags of the computation): what is in the data
ComputeNorms(diff, auto) == IF diff THEN (IF auto THEN {2} ELSE {2, 6}) ELSE {1, 2, 3, 5, 6, 7}
DefaultCompute(diff, auto) == IF diff THEN (IF auto THEN 2 ELSE 6) ELSE 7

DefaultNorm(diff, hassq, hasm) ==
    IF diff THEN (IF hasm THEN 6 ELSE 2)
    ELSE (IF hassq THEN 3 ELSE 1) + (IF hasm THEN 4 ELSE 0)
Available(diff, hassq, hasm) ==
    IF diff THEN (IF hasm THEN {2, 6} ELSE {2})
    ELSE { n \in CorrNorms : /\ Flag(n, 2) => hassq
                             /\ (Flag(n, 4) \/ Flag(n, 8)) => hasm }
NeedsVariance(norm, diff, mode, scale) ==
    scale \/ (IF diff THEN mode = "corr" ELSE Flag(norm, 2) \/ mode = "diff")
\* a normalisation request is served iff
Served(norm, diff, hassq, hasm, mode, scale, hasbg, hasvar) ==
    /\ norm \in Available(diff, hassq, hasm)
    /\ mode \in {"corr", "diff"}
    /\ hasbg
    /\ NeedsVariance(norm, diff, mode, scale) => hasvar

\* ---- strings and keywords
Strings == [x \in {"baseline", "standard", "structured", "weighted", "subtracted", "compensated", "none"} |->
    CASE x \in {"baseline", "none"} -> 0 [] x = "standard" -> 1 [] x = "structured" -> 2 [] x = "weighted" -> 3
      [] x = "subtracted" -> 4 [] x = "compensated" -> 8]
Or(a, b) == LET bit(n) == IF Flag(a, n) \/ Flag(b, n) THEN n ELSE 0 IN bit(1) + bit(2) + bit(4) + bit(8)
RECURSIVE OrAll(_)
OrAll(s) == IF s = <<>> THEN 0 ELSE Or(s[1], OrAll(Tail(s)))
\* the words of a string, combined; standard unless a calculation mode is named
FromWords(w) == LET n == OrAll([i \in DOMAIN w |-> Strings[w[i]]]) IN IF n % 4 = 0 THEN n + 1 ELSE n
FromFlags(structured, subtracted, weighted, compensated) ==
    OrAll(<<IF structured = 0 /\ weighted = 0 THEN 1 ELSE 0, IF structured = 1 THEN 2 ELSE 0,
            IF weighted = 1 THEN 3 ELSE 0, IF subtracted = 1 THEN 4 ELSE 0, IF compensated = 1 THEN 8 ELSE 0>>)

\* ---- the results, times 2*c^2
Sq(x) == x * x
CRe(ar, ai, br, bi) == ar * br + ai * bi        \* real and imaginary part of conj(a)*b
CIm(ar, ai, br, bi) == ar * bi - ai * br

\* real part; the imaginary part is the real part for the second signal turned by -i:
\*   Im(conj(a)*b) = Re(conj(a)*(-i*b))
Turn(e) == [e EXCEPT !.dr = e.di, !.m2r = e.m2i, !.m2i = -e.m2r, !.b2r = e.b2i, !.b2i = -e.b2r]

Simple(norm, e) ==     \* norm without the weighted ones
    LET c == e.c
        bb == CRe(e.b1r, e.b1i, e.b2r, e.b2i)
        d2 == Sq(e.b1r - e.b2r) + Sq(e.b1i - e.b2i)
        dm == (e.m1r - e.m2r) * (e.b1r - e.b2r) + (e.m1i - e.m2i) * (e.b1i - e.b2i)
        mm == Sq(e.m1r - e.m2r) + Sq(e.m1i - e.m2i)
        V  == Sq(c) * (e.v1 + e.v2)
    IN CASE norm = 1        -> 2*c*e.dr - 2*c*c*bb
         [] norm \in {5,13} -> 2*c*(e.dr - CRe(e.b1r, e.b1i, e.m2r, e.m2i) - CRe(e.m1r, e.m1i, e.b2r, e.b2i)) + 2*c*c*bb
         [] norm = 9        -> 2*c*e.dr - 2*CRe(e.m1r, e.m1i, e.m2r, e.m2i)
         [] norm = 2        -> 2*c*e.dr - c*e.sq + c*c*d2 + V
         [] norm \in {6,14} -> 2*c*e.dr - c*e.sq + 2*c*dm - c*c*d2 + V
         [] norm = 10       -> 2*c*e.dr - c*e.sq + mm + V
DiffSimple(norm, e) ==
    LET c == e.c
        d2 == Sq(e.b1r - e.b2r) + Sq(e.b1i - e.b2i)
        dm == (e.m1r - e.m2r) * (e.b1r - e.b2r) + (e.m1i - e.m2i) * (e.b1i - e.b2i)
    IN IF norm = 2 THEN 2*c*e.dr - 2*c*c*d2
       ELSE 2*c*e.dr - 4*c*dm + 2*c*c*d2

\* weighted = w * structured + (1 - w) * standard;  W4 = 4 * w
Blend(norm, e, W4) ==
    LET extra == norm - 3 IN W4 * Simple(extra + 2, e) + (4 - W4) * Simple(extra + 1, e)

\* from one representation to the other (offset only on the real part)
Mode(x, e, native, mode, re) ==
    LET V == IF re THEN Sq(e.c) * (e.v1 + e.v2) ELSE 0 IN
    IF native = mode THEN 2 * x
    ELSE IF mode = "diff" THEN 4 * V - 4 * x
    ELSE 2 * V - x
\* 4*c^2 * result (times 4 when weighted; times the scale (v1+v2)/2 * 2 when scaled)
Result(norm, e, diff, mode, W4, re) ==
    LET native == IF diff THEN "diff" ELSE "corr"
        ee == IF re THEN e ELSE Turn(e)
    IN IF diff THEN Mode(DiffSimple(norm, ee), ee, native, mode, re)
       ELSE IF Weighted(norm)
            THEN LET x == Blend(norm, ee, W4) IN
                 IF mode = "corr" THEN 2 * x ELSE (IF re THEN 16 * Sq(e.c) * (e.v1 + e.v2) ELSE 0) - 4 * x
       ELSE Mode(Simple(norm, ee), ee, native, mode, re)
=============================================================================
