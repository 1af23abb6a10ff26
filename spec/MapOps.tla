------------------------------- MODULE MapOps -------------------------------
(***************************************************************************)
(* Wavevectors of Fourier transforms: the plane of wavevectors (fft2), its *)
(* half (rfft2), rings and sectors.  An array of values over the plane is  *)
(* a sequence of rows; indices below count from 0.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

At(a, i, j) == a[i + 1][j + 1]
Rows(a) == Len(a)
Cols(a) == Len(a[1])
Table(h, w, F(_, _)) == [p \in 1..h |-> [q \in 1..w |-> F(p - 1, q - 1)]]

(*** half plane and plane ***)
HalfCols(w) == w \div 2 + 1
Neg(i, n) == (n - i) % n
Half(a) == Table(Rows(a), HalfCols(Cols(a)), LAMBDA i, j : At(a, i, j))
\* the other half, filed at the position of the opposite wavevector
ConjHalf(a, none) == Table(Rows(a), HalfCols(Cols(a)),
                           LAMBDA i, j : IF j = 0 THEN none ELSE At(a, Neg(i, Rows(a)), Neg(j, Cols(a))))
Conj(z) == <<z[1], -z[2]>>
\* the plane (w columns) belonging to half-plane data
Full(b, w) == Table(Rows(b), w, LAMBDA i, j : IF j < Cols(b) THEN At(b, i, j) ELSE Conj(At(b, Neg(i, Rows(b)), Neg(j, w))))
Hermitian(a) == \A i \in 0..(Rows(a) - 1), j \in 0..(Cols(a) - 1) : At(a, i, j) = Conj(At(a, Neg(i, Rows(a)), Neg(j, Cols(a))))

\* shape of the plane for kis x kjs half-plane data of frames of shape <<h, w>> (<<0, 0>>: not known; size 0: not given)
FullWidth(kjs, w) == IF kjs = 0 THEN w ELSE IF w # 0 /\ 2 * kjs - 1 = w + 1 THEN w ELSE 2 * kjs - 1
FullHeight(kis, h) == IF kis = 0 THEN h ELSE kis
ShapeOk(kis, kjs, h, w) == IF h = 0 THEN kis # 0 /\ kjs # 0 ELSE FullWidth(kjs, w) <= w /\ kis <= h

(*** wavevectors ***)
\* frequency of index i of n
Freq(i, n) == IF 2 * i < n THEN i ELSE i - n
\* A row is 1/h and a column 1/w of the sampling frequency; the unit is the larger of the two.
Den(h, w) == IF h < w THEN h ELSE w
\* <<x, y>> of the wavevector at <<i, j>> (y points up, rows down), times Den; sh = <<h, w>>
Vec(i, j, n, m, sh) == IF sh[1] = 0 THEN <<Freq(j, m), -Freq(i, n)>>
                       ELSE <<Freq(j, m) * sh[1], -(Freq(i, n) * sh[2])>>
VDen(sh) == IF sh[1] = 0 THEN 1 ELSE Den(sh[1], sh[2])
Sq(v) == v[1] * v[1] + v[2] * v[2]
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
\* between the directions lo and hi (counterclockwise, at most half a turn): 1 inside, 0 on an edge, -1 outside
Side(v, lo, hi) == LET c == Cross(lo, v)  d == Cross(v, hi) IN
                   IF c < 0 \/ d < 0 THEN -1 ELSE IF c = 0 \/ d = 0 THEN 0 ELSE 1
\* rings that v belongs to (two on a border): |v| within half a step (num/den) of m steps
Rings(v, den, s) == LET k2 == 4 * Sq(v) * s[2] * s[2]  u == s[1] * den
                        Ok(m) == /\ (m > 0 => (2 * m - 1) * (2 * m - 1) * u * u <= k2)
                                 /\ k2 <= (2 * m + 1) * (2 * m + 1) * u * u
                        \* a ring close by, to keep the search short
                        Top == CHOOSE t \in 0..200 : (2 * t + 1) * (2 * t + 1) * u * u >= k2
                                                     /\ (t = 0 \/ (2 * t - 1) * (2 * t - 1) * u * u < k2)
                    IN { m \in {Top, Top + 1} : Ok(m) }
\* the values the index map may have at v
Index(v, den, s, lo, hi) ==
    IF v = <<0, 0>> THEN {0}
    ELSE LET g == Side(v, lo, hi) IN
         (IF g >= 0 THEN Rings(v, den, s) ELSE {}) \cup (IF g <= 0 THEN {-1} ELSE {})
\* half-plane index map: directions modulo half a turn
Minus(v) == <<-v[1], -v[2]>>
IndexHalf(v, den, s, lo, hi) ==
    IF v = <<0, 0>> THEN {0}
    ELSE LET a == Side(v, lo, hi)  b == Side(Minus(v), lo, hi)  g == IF a > b THEN a ELSE b IN
         (IF g >= 0 THEN Rings(v, den, s) ELSE {}) \cup (IF g <= 0 THEN {-1} ELSE {})

(*** sums over selected wavevectors ***)
RECURSIVE ISqrtN(_, _)
ISqrtN(n, r) == IF r * r <= n /\ (r + 1) * (r + 1) > n THEN r ELSE ISqrtN(n, (r + n \div r) \div 2)
ISqrt(n) == IF n = 0 THEN 0 ELSE IF n < 4 THEN 1 ELSE ISqrtN(n, IF n > 80000 THEN 40000 ELSE n \div 2)
RECURSIVE SumSet(_, _)
SumSet(F(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN F(x) + SumSet(F, S \ {x})
=============================================================================
