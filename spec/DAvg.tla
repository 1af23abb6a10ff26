-------------------------------- MODULE DAvg --------------------------------
(***************************************************************************)
(* Design model of logarithmic averaging: every level value is a weighted  *)
(* mean of the linear data; the weights are followed symbolically through  *)
(* the levels (the transition).                                            *)
(***************************************************************************)
EXTENDS Average
CONSTANTS MaxN, Sizes
VARIABLES n, size, l, w        \* w[i][j] = weight of data j in value i of level l, times 4^l
vars == <<n, size, l, w>>
Unit(m) == [i \in 1..m |-> [j \in 1..m |-> IF i = j THEN 1 ELSE 0]]
VLin(a, x, b, y, c, z) == [j \in DOMAIN x |-> a*x[j] + b*y[j] + c*z[j]]
Half(v) == [i \in 1..((Len(v) + 1) \div 2) |-> v[2*i - 1]]
SmoothW(v) == [i \in DOMAIN v |-> IF i = 1 \/ i = Len(v) THEN VLin(4, v[i], 0, v[i], 0, v[i]) ELSE VLin(1, v[i-1], 2, v[i], 1, v[i+1])]
Init == /\ n \in 3..MaxN /\ size \in Sizes /\ l = 0 /\ w = Unit(n)
Next == /\ l < LastLevel(n, size, 0)
        /\ Len(w) > 2
        /\ l' = l + 1 /\ w' = Half(SmoothW(w)) /\ UNCHANGED <<n, size>>
Spec == Init /\ [][Next]_vars

Pos(i) == (i - 1) * Pow2(l) + 1                  \* where value i sits in the data
Mean1     == \A i \in DOMAIN w : Sum(w[i]) = Pow4(l)
Positive  == \A i \in DOMAIN w : \A j \in DOMAIN w[i] : w[i][j] >= 0
\* the mean position is the reported delay: linear data are reproduced exactly
Centred   == \A i \in DOMAIN w : Sum([j \in DOMAIN w[i] |-> j * w[i][j]]) = Pow4(l) * Pos(i)
\* inside the data the weights are the triangular kernel (that effective counts assume)
Triangle  == \A i \in DOMAIN w : (Pos(i) - Pow2(l) >= 0 /\ Pos(i) + Pow2(l) <= n /\ i < Len(w) /\ i > 1) =>
                 \A j \in DOMAIN w[i] : w[i][j] = Kernel(l, j - Pos(i))
\* all levels but the last are full, the last one reaches the end of the data
Levels    == /\ (l < LastLevel(n, size, 0) => Len(w) > size)
             /\ (l = LastLevel(n, size, 0) => Len(w) <= size /\ Len(w) * Pow2(l) >= n)
\* merged delays grow strictly and every one up to `size` is there
TimesOK   == LET T == FullTimes(LastLevel(n, size, 0) + 1, size)
             IN /\ \A k \in 1..(Len(T) - 1) : T[k] < T[k + 1]
                /\ \A k \in 1..size : T[k] = k - 1
\* a position of the merged data belongs to the level whose spacing it has
PosOK     == LET L == LastLevel(n, size, 0) + 1  T == FullTimes(L, size)  P == FullPos(L, size)
             IN Len(T) = Len(P) /\ \A k \in DOMAIN T : T[k] = (P[k][2] - 1) * Pow2(P[k][1] - 1)
=============================================================================
