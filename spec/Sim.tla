--------------------------------- MODULE Sim --------------------------------
(***************************************************************************)
(* Simulated experiments.  Coordinates are in eighths of a pixel, so that  *)
(* deterministic motion is exact.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

AbsI(n) == IF n < 0 THEN -n ELSE n
RECURSIVE SumOver(_, _)
SumOver(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumOver(F, n - 1)
RECURSIVE SetMaxS(_)
SetMaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == SetMaxS(S) IN Append(Ascending(S \ {m}), m)

(* --------------------------------------------------------------- motion *)
\* the box is periodic: shape in pixels, coordinates in eighths
Mirror(p, shape) == <<p[1] % (8 * shape[1]), p[2] % (8 * shape[2])>>
\* velocity of a particle at p: constant, or (when field = 1) a field that
\* depends on where the particle is
Field(p) == <<8 * (((p[2] \div 8) % 3) - 1), 16 * ((p[1] \div 8) % 2)>>
Velocity(p, v, field) == IF field = 1 THEN Field(p) ELSE v
\* dt = dtn / dtd
Drift(p, v, field, dtn, dtd) == LET u == Velocity(p, v, field) IN <<(u[1] * dtn) \div dtd, (u[2] * dtn) \div dtd>>
StepTo(p, v, field, dtn, dtd, shape) == LET d == Drift(p, v, field, dtn, dtd) IN Mirror(<<p[1] + d[1], p[2] + d[2]>>, shape)
RECURSIVE At(_, _, _, _, _, _, _)
At(k, p, v, field, dtn, dtd, shape) ==
    IF k = 0 THEN Mirror(p, shape) ELSE StepTo(At(k - 1, p, v, field, dtn, dtd, shape), v, field, dtn, dtd, shape)

(* ------------------------------------------------------- camera geometry *)
\* rotation by quarter turns around the frame centre, then an offset
Turn(p, q) == CASE q = 0 -> p [] q = 1 -> <<-p[2], p[1]>> [] q = 2 -> <<-p[1], -p[2]>> [] q = 3 -> <<p[2], -p[1]>>
Seen(p, shape, off, q) ==
    LET c == <<4 * shape[1], 4 * shape[2]>>
        r == Turn(<<p[1] - c[1], p[2] - c[2]>>, q)
    IN Mirror(<<c[1] + r[1] + off[1], c[2] + r[2] + off[2]>>, shape)

(* ------------------------------------------------------------- drawing *)
\* exp(-k/32) in millionths, k = 0, 1, ...
ExpT == <<1000000, 969233, 939413, 910510, 882497, 855345, 829029, 803523, 778801, 754840, 731616, 709106, 687289,
    666144, 645649, 625784, 606531, 587870, 569783, 552252, 535261, 518793, 502832, 487361, 472367, 457833,
    443747, 430095, 416862, 404037, 391606, 379557, 367879, 356561, 345591, 334958, 324652, 314664, 304983,
    295599, 286505, 277690, 269146, 260866, 252840, 245061, 237521, 230213, 223130, 216265, 209611, 203162,
    196912, 190853, 184981, 179290, 173774, 168427, 163246, 158223, 153355, 148637, 144064, 139631, 135335,
    131171, 127136, 123224, 119433, 115758, 112197, 108745, 105399, 102156, 99013, 95967, 93014, 90153, 87379,
    84691, 82085, 79560, 77112, 74739, 72440, 70211, 68051, 65957, 63928, 61961, 60055, 58207, 56416, 54680,
    52998, 51367, 49787, 48255, 46771, 45332, 43937, 42585, 41275, 40005, 38774, 37581, 36425, 35304, 34218,
    33165, 32145, 31156, 30197, 29268, 28368, 27495, 26649, 25829, 25035, 24264, 23518, 22794, 22093, 21413,
    20754, 20116, 19497, 18897, 18316, 17752, 17206, 16677, 16163, 15666, 15184, 14717, 14264, 13825, 13400,
    12988, 12588, 12201, 11825, 11462, 11109, 10767, 10436, 10115, 9804, 9502, 9210, 8926, 8652, 8386, 8128, 7877,
    7635, 7400, 7173, 6952, 6738, 6531, 6330, 6135, 5946, 5763, 5586, 5414, 5248, 5086, 4930, 4778, 4631, 4488,
    4350, 4216, 4087, 3961, 3839, 3721, 3607, 3496, 3388, 3284, 3183, 3085, 2990, 2898, 2809, 2722, 2639, 2557,
    2479, 2402, 2329, 2257, 2187, 2120, 2055, 1992, 1930, 1871, 1813, 1758, 1704, 1651, 1600, 1551, 1503, 1457,
    1412, 1369, 1327, 1286, 1246, 1208, 1171, 1135, 1100, 1066, 1033, 1002, 971, 941, 912, 884, 857, 830, 805,
    780, 756, 733, 710, 688, 667, 647, 627, 607, 589, 571, 553, 536, 520, 504, 488, 473, 459, 444, 431, 417, 405,
    392, 380, 368, 357, 346, 335, 325, 315, 305, 296, 287, 278, 270, 261, 253, 245, 238, 231, 223, 217, 210, 203,
    197, 191, 185, 180, 174, 169, 163, 158, 154, 149, 144, 140, 136, 131, 127, 123, 120, 116, 112, 109, 106, 102,
    99, 96, 93, 90, 88, 85, 82, 80, 77, 75, 73, 70, 68, 66, 64, 62, 60, 58, 57, 55, 53, 51, 50, 48, 47, 45, 44,
    43, 41, 40, 39, 38, 36, 35, 34, 33, 32, 31, 30, 29, 28, 28, 27, 26, 25, 24, 24, 23, 22, 21, 21, 20, 20, 19,
    18, 18, 17, 17, 16, 16, 15, 15, 14, 14, 13, 13, 13, 12, 12, 11, 11, 11, 10, 10, 10, 10, 9, 9, 9, 8, 8, 8, 8,
    7, 7, 7, 7, 7, 6, 6, 6, 6, 6, 5, 5, 5, 5, 5, 5, 4, 4, 4, 4, 4, 4, 4, 4, 4, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 2,
    2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>
\* a spot of brightness a at p (half pixels), width s in {1, 2}: what it adds
\* to pixel (i0, j0) of the unbounded plane; an interval because of rounding
Spot(a, p, s, i0, j0, up) ==
    LET di == 2 * i0 + 1 - (p[1] \div 4)  dj == 2 * j0 + 1 - (p[2] \div 4)
        r4 == di * di + dj * dj                       \* four times the squared distance
        k == IF s = 2 THEN r4 ELSE 4 * r4
        e == IF k < Len(ExpT) THEN ExpT[k + 1] ELSE 0
    IN IF AbsI(i0 - (p[1] \div 8)) > 3 * s \/ AbsI(j0 - (p[2] \div 8)) > 3 * s THEN 0
       ELSE IF k = 0 THEN a
       ELSE IF up THEN (a * e + a) \div 1000000 ELSE LET v == a * e - a IN IF v < 0 THEN 0 ELSE v \div 1000000
\* images of the spot across the periodic border
SpotIn(a, p, s, i, j, shape, up) ==
    LET one(n) == LET di == ((n - 1) \div 3) - 1  dj == ((n - 1) % 3) - 1
                  IN Spot(a, p, s, i + di * shape[1], j + dj * shape[2], up)
    IN SumOver(one, 9)
\* pixel (i, j), counted from 0; s = 0 draws single points
Pixel(bg, pts, amps, s, i, j, shape, up) ==
    LET one(n) == IF s = 0 THEN (IF pts[n][1] \div 8 = i /\ pts[n][2] \div 8 = j THEN amps[n] ELSE 0)
                  ELSE SpotIn(amps[n], pts[n], s, i, j, shape, up)
    IN bg + SumOver(one, Len(pts))
Shows(img, bg, pts, amps, s, shape) ==
    /\ Len(img) = shape[1]
    /\ \A i \in 1..shape[1] : Len(img[i]) = shape[2] /\ \A j \in 1..shape[2] :
          /\ img[i][j] >= Pixel(bg, pts, amps, s, i - 1, j - 1, shape, FALSE)
          /\ img[i][j] <= Pixel(bg, pts, amps, s, i - 1, j - 1, shape, TRUE)

(* ----------------------------------------------------- frames and times *)
\* frame times that the stream of n positions reaches
Reached(t, n) == SelectSeq(t, LAMBDA x : x < n)
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
\* multi-frame k is delivered as soon as both of its frames were taken
Delivered(t1, t2, n) == MinI(Len(Reached(t1, n)), Len(Reached(t2, n)))
ReadFor(k, t1, t2) == MaxI(t1[k], t2[k]) + 1

\* selecting from a stream by index
Selected(indices, n) == SelectSeq(Ascending({indices[i] : i \in DOMAIN indices}), LAMBDA x : x < n)
Consumed(indices, n) == IF indices = <<>> THEN 0
                        ELSE MinI(n, 1 + SetMaxS({indices[i] : i \in DOMAIN indices}))

(* ------------------------------------------------------- trigger times *)
RandomTime(t, n, gap) == /\ \A i \in DOMAIN t : t[i] >= (i - 1) * n /\ t[i] < i * n
                         /\ \A i \in 1..(Len(t) - 1) : t[i + 1] - t[i] >= gap
Pair1(a, b, base, n) == a - base \in 0..(n - 1) /\ b - base \in {0, n}
Times1(t1, t2, n) == Len(t1) = Len(t2) /\ \A i \in DOMAIN t1 : Pair1(t1[i], t2[i], 2 * n * (i - 1), n)
Times2(t1, t2, n) == Len(t1) = Len(t2) /\ \A i \in DOMAIN t1 :
                        Pair1(t1[i], t2[i], 2 * n * (i - 1), n) \/ (t1[i] = t2[i] /\ t1[i] - 2 * n * (i - 1) \in 0..(n - 1))

\* expected number of pairs of N frames at delay d, times n * n: the offset of
\* every frame in its period of n is uniform
Expected(d, N, n) ==
    LET m == d \div n  s == d % n IN
    IF d = 0 THEN N * n * n
    ELSE (IF m = 0 THEN 0 ELSE (N - m) * (n - s)) + (IF N - m - 1 > 0 THEN (N - m - 1) * s ELSE 0)

(* ------------------------------------------------------------ conversion *)
\* signal f with black level b at saturation level s on max+1 levels
Level(f, b, s, mx) == LET v == (f - b) * mx IN IF v < 0 THEN 0 ELSE IF v \div s > mx THEN mx ELSE v \div s
Converted(x, f, b, s, mx) ==
    \/ x = Level(f, b, s, mx)
    \* an exact multiple may round to either side
    \/ (f > b /\ ((f - b) * mx) % s = 0 /\ x = Level(f, b, s, mx) - 1 /\ (f - b) <= s)
=============================================================================
