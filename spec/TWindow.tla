------------------------------ MODULE TWindow -------------------------------
(***************************************************************************)
(* Trace validation of window functions.                                   *)
(***************************************************************************)
EXTENDS Window, FiniteSets, TLC, Json
CONSTANT TraceFile
Cases == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
Clause(name, ok) == IF ok THEN {} ELSE {name}

Value(e, i, j) ==
    LET r == Dist(i, j, e.h, e.w) IN
    CASE e.kind = "hann" -> Tukey(r, 1, 1)
      [] e.kind = "tukey" -> Tukey(r, e.par[1], e.par[2])
      [] e.kind = "blackman" -> Blackman(r)
      [] e.kind = "gaussian" -> Gauss(Num(i, j, e.h, e.w), Den(e.h, e.w), e.par[1], e.par[2])
\* the distance is known to a thousandth; steep edges magnify this
Slack(e) == CASE e.kind = "tukey" -> 30 + (20 * e.par[2]) \div (IF e.par[1] = 0 THEN 1 ELSE e.par[1])
              [] OTHER -> 40 + (20 * e.par[2]) \div e.par[1]
WindowOk(e) ==
    LET P == (0..(e.h - 1)) \X (0..(e.w - 1))
        N == [p \in P |-> Num(p[1], p[2], e.h, e.w)]
        D == Den(e.h, e.w)
        X(p) == e.out[p[1] + 1][p[2] + 1]
        \* pixels exactly at the border of the flat part may fall on either side
        Sure(p) == ~(e.kind = "tukey" /\ AbsW(Dist(p[1], p[2], e.h, e.w) - (1000 - (1000 * e.par[1]) \div e.par[2])) <= 1)
    IN Clause("value", \A p \in P : Sure(p) => AbsW(X(p) - Value(e, p[1], p[2])) <= Slack(e))
       \cup Clause("range", \A p \in P : X(p) >= 0 /\ X(p) <= 10000)
       \cup Clause("aperture", e.kind = "gaussian" \/ \A p \in P : (N[p] >= D => X(p) = 0))
       \cup Clause("flat", e.kind # "tukey" \/ \A p \in P : (Sure(p) /\ Dist(p[1], p[2], e.h, e.w) < 1000 - (1000 * e.par[1]) \div e.par[2]) => X(p) = 10000)
       \cup Clause("symmetric", \A p \in P : AbsW(X(p) - X(<<e.h - 1 - p[1], p[2]>>)) <= 1 /\ AbsW(X(p) - X(<<p[1], e.w - 1 - p[2]>>)) <= 1)
       \cup Clause("decreasing", \A p, q \in P : N[p] < N[q] => X(p) >= X(q) - 1)
       \cup Clause("transposed", e.turned = [j \in 1..e.w |-> [i \in 1..e.h |-> e.out[i][j]]])

Event(e) ==
    CASE e.k = "exc" -> {"exception"}
      [] e.k = "window" ->
            Clause("shape", Len(e.out) = e.h /\ \A i \in DOMAIN e.out : Len(e.out[i]) = e.w)
            \cup (IF Len(e.out) = e.h /\ \A i \in DOMAIN e.out : Len(e.out[i]) = e.w THEN WindowOk(e) ELSE {})
            \cup Clause("given-output", e.given = 1) \cup Clause("type", e.type = 1)
      [] e.k = "refuse" -> Clause("refusal", (e.raised = 1) <=> (e.valid = 0))
      [] e.k = "outer" -> \* a Gaussian is the product of its middle row and column
            Clause("separable", \A i \in DOMAIN e.out : \A j \in DOMAIN e.out[i] : AbsW(e.out[i][j] * e.mid - e.col[i] * e.row[j]) <= 30000)

TraceInit == tr \in DOMAIN Cases /\ l = 0 /\ bad = {}
TraceNext == /\ l < Len(Cases[tr].ev)
             /\ l' = l + 1 /\ UNCHANGED tr
             /\ bad' = Event(Cases[tr].ev[l + 1])
Verdict == /\ (bad = {} \/ PrintT(<<"BAD", tr, l, bad>>))
           /\ (l < Len(Cases[tr].ev) \/ PrintT(<<"END", tr, l>>))
=============================================================================
