------------------------------ MODULE Window --------------------------------
(***************************************************************************)
(* Window functions of the distance from the centre of the frame, in units *)
(* of half the frame size.  The squared distance is rational; values are   *)
(* in thousandths.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

AbsW(n) == IF n < 0 THEN -n ELSE n
RECURSIVE RootFrom(_, _, _)
RootFrom(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN RootFrom(n, m, hi) ELSE RootFrom(n, lo, m)
Root(n) == RootFrom(n, 0, 46340)

\* squared distance of pixel (i, j), counted from 0: numerator over (h*w)^2
Num(i, j, h, w) == LET a == 2 * i + 1 - h  b == 2 * j + 1 - w IN a * a * w * w + b * b * h * h
Den(h, w) == h * h * w * w
Thousand(n, d) == (1000 * (n \div d)) + (1000 * (n % d)) \div d
\* distance in thousandths
Dist(i, j, h, w) == LET n == Num(i, j, h, w)  d == Den(h, w) IN Root(1000000 * (n \div d) + (1000 * (((n % d) * 1000) \div d)))

(* cos(pi x) for x in thousandths, |x| <= 2 *)
RECURSIVE CosTerms(_, _, _)
CosTerms(k, t, z) == IF k > 7 THEN 0 ELSE t + CosTerms(k + 1, -((t * z) \div (1000 * (2 * k + 1) * (2 * k + 2))), z)
\* reduce to |x| <= 1/2 first, so that the terms stay small
PiSq == 9870
CosSmall(x) == LET z == (((x * x) \div 10) * PiSq) \div 100000 IN CosTerms(0, 10000, z)   \* ten-thousandths
RECURSIVE CosPi(_)
CosPi(x) == IF x < 0 THEN CosPi(-x)
            ELSE IF x > 1000 THEN CosPi(2000 - x)
            ELSE IF x > 500 THEN -CosSmall(1000 - x) ELSE CosSmall(x)

(* the windows in ten-thousandths, of the distance in thousandths *)
Tukey(r, an, ad) ==          \* edge width an/ad
    IF r >= 1000 THEN 0
    ELSE IF an = 0 \/ r <= 1000 - (1000 * an) \div ad THEN 10000
    ELSE LET x == ((1000 - r) * ad) \div an IN (10000 - CosPi(x)) \div 2
Blackman(r) == IF r >= 1000 THEN 0 ELSE (42 * 10000 + 50 * CosPi(r) + 8 * CosPi(2 * r)) \div 100
\* exp(-y), y in thousandths, y >= 0, ten-thousandths
RECURSIVE Halves(_, _)
ExpSmall(y) == 10000 - 10 * y + (5 * y * y) \div 1000 - (y * (((5 * y * y) \div 3) \div 1000)) \div 1000
Halves(y, n) == IF y <= 250 \/ n = 0 THEN ExpSmall(y) ELSE LET e == Halves((y + 1) \div 2, n - 1) IN (e * e) \div 10000
Exp(y) == IF y > 12000 THEN 0 ELSE Halves(y, 8)
Gauss(n, d, sn, sd) ==       \* sigma = sn/sd in units of the frame width (twice the unit of distance)
    LET q == (n \div d) * 1000 + ((n % d) * 1000) \div d IN
    IF (q * sd * sd) \div (2 * sn * sn) > 12000 THEN 0 ELSE Exp((q * sd * sd) \div (2 * sn * sn))
=============================================================================
