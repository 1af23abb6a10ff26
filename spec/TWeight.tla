------------------------------- MODULE TWeight ------------------------------
(***************************************************************************)
(* Trace validation of weights, errors and noise estimates.  Observations  *)
(* are in 1/100000 (weights) and 1/1000 (variances).                       *)
(***************************************************************************)
EXTENDS Weight, TLC, Json
CONSTANT TraceFile
Cases == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, bad
Clause(name, ok) == IF ok THEN {} ELSE {name}
NAN == 2000000002
Sq2(z) == z[1] * z[1] + z[2] * z[2]
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Sq2(Head(s)) + Total(Tail(s))
Ratio(o, num, den, tol) == Abs(o * den - 100000 * num) <= tol * den
\* which of the two is the conjugated one is a convention, but one for all
Reading(f, g) == IF f = 0 THEN g ELSE CConj(g)
WeightOk(o, g, d, b) == Ratio(o, CovXS(g, d, b), VarS(g, d, b), 3)
\* 16384 * variance
ErrorOk(o, u, g, d, b) == LET v == Variance(u, g, d, b) IN
    IF v < 0 THEN o = NAN \/ v > -20 ELSE IF v = 0 THEN o = NAN \/ Abs(o) <= 2 ELSE o # NAN /\ Abs(o * 16384 - 1000 * v) <= 16384 * 2

Judge(e) ==
    CASE e.k = "weight" -> \* real and imaginary part have weights of their own
            Clause("weight", \E f \in 0..1 : \A k \in DOMAIN e.g : WeightOk(e.w[k][1], Reading(f, e.g[k]), e.d[k], e.b[k]))
            \cup Clause("weight-imaginary", e.cplx = 0 \/ \A k \in DOMAIN e.g : WeightOk(e.w[k][2], Turned(e.g[k]), e.d[k], e.b[k]))
      [] e.k = "error" ->
            Clause("error", \E f \in 0..1 : \A k \in DOMAIN e.g : ErrorOk(e.v[k], e.u[k], Reading(f, e.g[k]), e.d[k], e.b[k]))
      [] e.k = "best" ->       \* no other weight does better, by the code's own error
            Clause("best", \A k \in DOMAIN e.at : \A o \in DOMAIN e.others[k] : e.others[k][o] = NAN \/ e.at[k] <= e.others[k][o] + 2)
      [] e.k = "delta" -> \* relative difference of the variances of the cameras
            Clause("delta", Len(e.out) = Len(e.v1) /\ \A k \in DOMAIN e.v1 :
                IF e.single = 1 THEN e.out[k] = 0
                ELSE Ratio(e.out[k], e.v2[k] - e.v1[k], IF e.scaled = 1 THEN e.v1[k] + e.v2[k] ELSE 2, 2))
      [] e.k = "scale" -> Clause("scale", Len(e.out) = Len(e.v1) /\ \A k \in DOMAIN e.v1 : e.out[k] = e.v1[k] + (IF e.single = 1 THEN e.v1[k] ELSE e.v2[k]))
      [] e.k = "level" -> Clause("level", e.out = e.intensity * Total(e.win))
      [] e.k = "mean" -> \* what is missing at zero delay, between 0 and 1
            Clause("mean", \A k \in DOMAIN e.c :
                LET n == IF e.mode = "corr" THEN 2 * (e.s[k] - e.c[k]) ELSE e.c[k]
                    m == IF n < 0 THEN 0 ELSE IF n > 2 * e.s[k] THEN 2 * e.s[k] ELSE n
                IN Ratio(e.out[k], m, 2 * e.s[k], 2))
      [] e.k = "same" -> Clause("filtered", e.a = e.z)
      [] e.k = "refuse" -> Clause("refusal", e.raised = 1)
      [] e.k = "exc" -> {"exception"}

TraceInit == tr \in DOMAIN Cases /\ l = 0 /\ bad = {}
TraceNext == /\ l < Len(Cases[tr].ev)
             /\ l' = l + 1 /\ UNCHANGED tr
             /\ bad' = LET e == Cases[tr].ev[l + 1] IN Judge(e) \cup (IF e.k = "exc" \/ e.same = 1 THEN {} ELSE {"input-modified"})
Verdict == /\ (bad = {} \/ PrintT(<<"BAD", tr, l, bad>>))
           /\ (l < Len(Cases[tr].ev) \/ PrintT(<<"END", tr, l>>))
=============================================================================
