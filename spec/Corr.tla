-------------------------------- MODULE Corr --------------------------------
(***************************************************************************)
(* What the linear correlation data ARE.                                   *)
(*                                                                         *)
(* Input: two sequences of frames f1, f2 (frame i of camera 1 was taken at *)
(* integer time t1[i], frame j of camera 2 at t2[j]).  Frames are given    *)
(* pixel-major: f1r[p][i], f1i[p][i] are the real and imaginary part of    *)
(* pixel p of frame i.                                                     *)
(*                                                                         *)
(* A pair (i,j) has the delay  m = t2[j] - t1[i].  Every raw result is a   *)
(* sum over the pairs that have a given delay:                             *)
(*     correlation      conj(f1[i]) * f2[j]                                *)
(*     difference       |f2[j] - f1[i]|^2                                  *)
(*     count            1                                                  *)
(*     squares          |f1[i]|^2 + |f2[j]|^2                              *)
(*     means            f1[i]   and   f2[j]                                *)
(* For a real result delays m and -m go to the same element |m|; a complex *)
(* cross-correlation keeps them apart (n-1 negative delays at the end);    *)
(* the auto-correlation of one sequence has non-negative delays only, each *)
(* unordered pair counted once.                                            *)
(***************************************************************************)
EXTENDS Arith

Regular(T) == [i \in 1..T |-> i - 1]

\* Output length when the caller does not ask for one.
FullLenCross(t1, t2) ==
    1 + Max(MaxS(Range1(t2)) - MinS(Range1(t1)), MaxS(Range1(t1)) - MinS(Range1(t2)))
FullLenAuto(t) == 1 + MaxS(Range1(t)) - MinS(Range1(t))

\* ---- delay bins.  Bin k (1..Len) holds the pairs <<i,j>> whose delay it stands for.
RealLen(n)  == n
CplxLen(n)  == 2 * n - 1

\* the delay that element k of a complex cross-correlation stands for
CplxDelay(k, n) == IF k <= n THEN k - 1 ELSE k - 1 - (2 * n - 1)

BinsReal(t1, t2, n) ==
    TLCEval([k \in 1..n |->
        { q \in (DOMAIN t1) \X (DOMAIN t2) : Abs(t2[q[2]] - t1[q[1]]) = k - 1 }])
BinsCplx(t1, t2, n) ==
    TLCEval([k \in 1..(2 * n - 1) |->
        { q \in (DOMAIN t1) \X (DOMAIN t2) : t2[q[2]] - t1[q[1]] = CplxDelay(k, n) }])
\* one sequence: <<i,j>> with t[j] - t[i] = k-1 >= 0 (the times are distinct)
BinsAuto(t, n) ==
    TLCEval([k \in 1..n |->
        { q \in (DOMAIN t) \X (DOMAIN t) : t[q[2]] - t[q[1]] = k - 1 }])

Bins(t1, t2, n, auto, cplx) ==
    IF auto THEN BinsAuto(t1, n)
    ELSE IF cplx THEN BinsCplx(t1, t2, n) ELSE BinsReal(t1, t2, n)

BinCount(B) == [k \in DOMAIN B |-> Cardinality(B[k])]

\* ---- the sums of one pixel
CorrRe(B, xr, xi, yr, yi) ==
    [k \in DOMAIN B |-> Sum([q \in B[k] |-> xr[q[1]] * yr[q[2]] + xi[q[1]] * yi[q[2]]])]
CorrIm(B, xr, xi, yr, yi) ==
    [k \in DOMAIN B |-> Sum([q \in B[k] |-> xr[q[1]] * yi[q[2]] - xi[q[1]] * yr[q[2]]])]
DiffSq(B, xr, xi, yr, yi) ==
    [k \in DOMAIN B |-> Sum([q \in B[k] |->
        LET dr == yr[q[2]] - xr[q[1]]  di == yi[q[2]] - xi[q[1]] IN dr * dr + di * di])]
First(B, x)  == [k \in DOMAIN B |-> Sum([q \in B[k] |-> x[q[1]]])]
Second(B, y) == [k \in DOMAIN B |-> Sum([q \in B[k] |-> y[q[2]]])]
Both(B, x, y) == [k \in DOMAIN B |-> Sum([q \in B[k] |-> x[q[1]] + y[q[2]]])]
Half(v) == [k \in DOMAIN v |-> v[k] \div 2]
AbsSq(xr, xi) == [i \in DOMAIN xr |-> xr[i] * xr[i] + xi[i] * xi[i]]

\* ---- all pixels
ZeroM(P, L) == [p \in 1..P |-> [k \in 1..L |-> 0]]
PixMap(P, Op(_)) == [p \in 1..P |-> Op(p)]
=============================================================================
