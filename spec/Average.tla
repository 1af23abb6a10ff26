------------------------------ MODULE Average ------------------------------
(***************************************************************************)
(* Logarithmic averaging: levels, merging, folding, effective counts and   *)
(* filters.  A row is a sequence of integers (real and imaginary parts are *)
(* separate rows, every operation is linear).  Level l is scaled by 4^l,   *)
(* so that everything stays an integer.                                    *)
(***************************************************************************)
EXTENDS Arith

RECURSIVE Pow4(_)
Pow4(k) == IF k = 0 THEN 1 ELSE 4 * Pow4(k - 1)
Cat(a, b) == a \o b
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Concat(Tail(s))

\* kernel 1/4, 1/2, 1/4; the end points are kept (scaled by 4)
Smooth(d) == [i \in DOMAIN d |-> IF i = 1 \/ i = Len(d) THEN 4 * d[i] ELSE d[i-1] + 2 * d[i] + d[i+1]]
Every2(d) == [i \in 1..((Len(d) + 1) \div 2) |-> d[2*i - 1]]
Times4(d) == [i \in DOMAIN d |-> 4 * d[i]]
\* next level: mean, first, or one of two (r = 0: first, r = 1: second of each complete pair)
NextLevel(d, binning, r) ==
    CASE binning = 1 -> Every2(Smooth(d))
      [] binning = 0 -> Times4(Every2(d))
      [] binning = 2 -> [i \in 1..(Len(d) \div 2) |-> 4 * d[2*i - 1 + r]]
RECURSIVE LevelRow(_, _, _, _)
LevelRow(d, binning, rs, l) == IF l = 0 THEN d ELSE NextLevel(LevelRow(d, binning, rs, l - 1), binning, rs[l])

\* number of the last level: the data must fit into it
RECURSIVE LastLevel(_, _, _)
LastLevel(n, size, l) == IF size * Pow2(l) >= n THEN l ELSE LastLevel(n, size, l + 1)

\* the first `size` values, missing ones are NaN
Take(d, size) == [i \in 1..size |-> IF i <= Len(d) THEN d[i] ELSE NAN]
Multilevel(d, size, binning, rs) ==
    [l \in 1..(LastLevel(Len(d), size, 0) + 1) |-> Take(LevelRow(d, binning, rs, l - 1), size)]
AllRs(L) == [1..L -> {0, 1}]

\* merging: all of level 0 and the upper half of each other level
HalfTimes(L, n) == Concat([l \in 1..L |-> [i \in 1..(n - n \div 2) |-> (n \div 2 + i - 1) * Pow2(l - 1)]])
HalfPos(L, n)   == Concat([l \in 1..L |-> [i \in 1..(n - n \div 2) |-> <<l, n \div 2 + i>>]])
FullTimes(L, n) == [i \in 1..n |-> i - 1] \o [i \in DOMAIN HalfTimes(L - 1, n) |-> 2 * HalfTimes(L - 1, n)[i]]
FullPos(L, n)   == [i \in 1..n |-> <<1, i>>] \o [i \in DOMAIN HalfPos(L - 1, n) |-> <<HalfPos(L - 1, n)[i][1] + 1, HalfPos(L - 1, n)[i][2]>>]
Pick(levels, pos) == [k \in DOMAIN pos |-> levels[pos[k][1]][pos[k][2]]]

\* fold positive and negative delays: mean (times 2), positive, negative part
Mirror(d, n) == [i \in 1..n |-> IF i = 1 THEN d[1] ELSE d[Len(d) + 2 - i]]
FoldRe(re, mode) == LET n == (Len(re) + 1) \div 2 IN
    [i \in 1..n |-> CASE mode = 1 -> 2 * re[i] [] mode = -1 -> 2 * Mirror(re, n)[i] [] mode = 0 -> re[i] + Mirror(re, n)[i]]
FoldIm(im, mode) == LET n == (Len(im) + 1) \div 2 IN
    [i \in 1..n |-> CASE mode = 1 -> 2 * im[i] [] mode = -1 -> 2 * Mirror(im, n)[i]
                      [] mode = 0 -> IF i = 1 THEN 2 * im[i] ELSE im[i] - Mirror(im, n)[i]]

\* effective number of measurements of the value at position i (1..) of level l:
\* (sum k c)^3 / sum k^2 c^2 over the averaging window, as a fraction <<num, den>>
Kernel(l, j) == Max(0, Pow2(l) - Abs(j))                  \* scaled by 4^l
WinSum(c, l, i, F(_, _)) ==
    LET m == (i - 1) * Pow2(l) + 1
    IN Sum([j \in (1 - Pow2(l))..(Pow2(l) - 1) |-> IF m + j \in DOMAIN c THEN F(Kernel(l, j), c[m + j]) ELSE 0])
EffCount(c, l, i, binning) ==
    IF binning = 1
    THEN LET N == WinSum(c, l, i, LAMBDA k, x : k * x)
             D == WinSum(c, l, i, LAMBDA k, x : k * k * x * x)
         IN <<N * N * N, Pow4(l) * D>>
    ELSE <<c[(i - 1) * Pow2(l) + 1], 1>>

\* filters
Med3(a, b, c) == Max(Min(a, b), Min(Max(a, b), c))
MedianF(d) == [i \in DOMAIN d |-> IF i = 1 \/ i = Len(d) THEN d[i] ELSE Med3(d[i-1], d[i], d[i+1])]
Lowest(d, i) == MinS({ d[j] : j \in 1..i })
Highest(d, i) == MaxS({ d[j] : j \in 1..i })
RECURSIVE Denoise(_, _)
Denoise(d, n) == IF n = 0 THEN d ELSE Denoise(Smooth(MedianF(d)), n - 1)    \* scaled by 4^n
=============================================================================
