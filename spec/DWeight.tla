------------------------------ MODULE DWeight -------------------------------
(* The closed formulas of weights and errors are those of the noise model. *)
EXTENDS Weight, TLC
CONSTANT Blind
R == {-4, -3, 0, 1, 2}
Means == {<<0, 0>>, <<1, 2>>, <<-2, 1>>, <<0, 3>>}
VARIABLES g, d, b, u
Init == /\ g \in (R \X R) /\ d \in R /\ Possible(g, d)
        /\ b \in Means \X Means /\ u \in {-3, 0, 2, 5, 8}
Next == UNCHANGED <<g, d, b, u>>
Spec == Init /\ [][Next]_<<g, d, b, u>>
Sq2(x) == x[1] * x[1] + x[2] * x[2]
r == b[1][1] * b[2][1] + b[1][2] * b[2][2]
i == IF Blind THEN 0 ELSE b[2][1] * b[1][2] - b[2][2] * b[1][1]
s1 == Sq2(b[1])
s2 == Sq2(b[2])
\* numerator and denominator of the weight, and the variance, as published (times 64)
Num == 64 * g[1] + 16 * r + 2 * (s1 + s2) * g[1]
Den == 4 * Sq2(g) + 64 + 4 * d * d + 4 * (s1 + s2) + (s2 - s1) * d + 2 * r * g[1] + 2 * i * g[2]
Rest == 8 * g[1] * g[1] - 4 * Sq2(g) + 64 - 4 * d * d + 4 * (s1 + s2) - (s2 - s1) * d + 2 * r * g[1] - 2 * i * g[2]
Published == /\ CovXS(g, d, b) = Num
             /\ VarS(g, d, b) = 2 * Den
             /\ VarX(g, d, b) = 2 * Rest
\* variances are positive and the weight is best
Best == /\ VarX(g, d, b) >= 0 /\ VarS(g, d, b) > 0
        /\ VarX(g, d, b) * VarS(g, d, b) >= CovXS(g, d, b) * CovXS(g, d, b)
        /\ Variance(u, g, d, b) >= 0
        \* completing the square: V(u) = V(best) + (distance)^2
        /\ Variance(u, g, d, b) * VarS(g, d, b) =
             64 * (VarX(g, d, b) * VarS(g, d, b) - CovXS(g, d, b) * CovXS(g, d, b))
             + (u * VarS(g, d, b) - 8 * CovXS(g, d, b)) * (u * VarS(g, d, b) - 8 * CovXS(g, d, b))
=============================================================================
