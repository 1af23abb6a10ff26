------------------------------ MODULE DWindow -------------------------------
(* The tables that the window specification computes: identities that tie  *)
(* the integer arithmetic to the functions it stands for.                  *)
EXTENDS Window
CONSTANT Step
VARIABLES r
vars == <<r>>
Init == r \in {k * Step : k \in 0..(2000 \div Step)}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Near(a, b, t) == AbsW(a - b) <= t
\* cos(2x) = 2 cos(x)^2 - 1, cos(pi/2 - x)^2 + cos(x)^2 = 1, cos(pi/3), cos(pi/4)
Doubled == r <= 1000 => Near(CosPi(2 * r) * 10000, 2 * CosPi(r) * CosPi(r) - 100000000, 500000)
Pythagoras == r <= 500 => Near(CosPi(r) * CosPi(r) + CosPi(500 - r) * CosPi(500 - r), 100000000, 500000)
Known == Near(CosPi(0), 10000, 3) /\ Near(CosPi(250), 7071, 12) /\ Near(CosPi(333), 5009, 12) /\ Near(CosPi(500), 0, 12) /\ Near(CosPi(1000), -10000, 3)
Ends == Tukey(r, 1, 1) \in 0..10000 /\ Blackman(r) \in -12..10000 /\ Near(Blackman(999), 0, 15) /\ Near(Tukey(999, 1, 1), 0, 15)
\* a Tukey window of full width is the Hann window; half of the maximum in the middle of the edge
Middle == Near(Tukey(500, 1, 1), 5000, 12) /\ Near(Tukey(750, 1, 2), 5000, 12) /\ Tukey(499, 1, 2) = 10000
Exponent == /\ Near(Exp(0), 10000, 0) /\ Near(Exp(693), 5000, 20) /\ Near(Exp(1000), 3679, 20) /\ Near(Exp(2303), 1000, 20)
            /\ (r <= 1999 => Exp(r) >= Exp(r + 1) - 20)
Distances == \A h \in 1..6, w \in 1..6 : \A i \in 0..(h - 1), j \in 0..(w - 1) :
    LET d == Dist(i, j, h, w) n == Num(i, j, h, w) IN
    /\ (n < Den(h, w) => d <= 1000) /\ (n >= Den(h, w) => d >= 999)
    /\ (h = w => d = Dist(j, i, w, h))
Inv == Doubled /\ Pythagoras /\ Known /\ Ends /\ Middle /\ Exponent
=============================================================================
