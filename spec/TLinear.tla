------------------------------- MODULE TLinear -------------------------------
(***************************************************************************)
(* Trace validation of the linear correlation API (ccorr, acorr, the low   *)
(* level cross_*/auto_* functions) against Correlator.  Each trace is a    *)
(* sequence of calls; each event holds the request and everything that the *)
(* call returned.  `bad` is the set of clauses the event violates.         *)
(***************************************************************************)
EXTENDS Correlator, Json

CONSTANTS TraceFile, Want        \* Want \subseteq {"cor","count","sums"}

Cases == ndJsonDeserialize(TraceFile)

VARIABLES tr, l, acc, bad
vars == <<tr, l, acc, bad>>

TraceInit == tr \in DOMAIN Cases /\ l = 0 /\ acc = Empty /\ bad = {}

Clause(name, ok) == IF ok THEN {} ELSE {name}

\* clauses about ccorr/acorr: e.o* are the observed arrays, e.sh their shapes (<<-1>> = None)
RawClauses(e, a) ==
    IF e.err # "" THEN {"exception"} ELSE
    LET L == OutLen(e)
        shape == OutShape(e.dshape, e.axis, L)
        none == <<-1>>
    IN  (IF "cor" \in Want THEN
            Clause("corr-shape", e.sh[1] = shape)
            \cup Clause("corr-type", e.ctype = e.cplx)
            \cup Clause("corr-value", e.ocre = a.cre)
            \cup Clause("corr-imag-value", e.ocim = a.cim)
         ELSE {})
        \cup (IF "count" \in Want THEN
            Clause("count-shape", e.sh[2] = <<L>>)
            \cup Clause("count-value", e.ocnt = a.cnt)
         ELSE {})
        \cup (IF "sums" \in Want THEN
            Clause("squares-presence", (e.sh[3] # none) = HasSquares(e))
            \cup Clause("mean1-presence", (e.sh[4] # none) = HasMean1(e))
            \cup Clause("mean2-presence", (e.sh[5] # none) = HasMean2(e))
            \cup Clause("sums-shape", \A i \in 3..5 : e.sh[i] \in {none, shape})
            \cup Clause("squares-value", e.osq = a.sq)
            \cup Clause("mean1-value", e.om1r = a.m1r /\ e.om1i = a.m1i)
            \cup Clause("mean2-value", e.om2r = a.m2r /\ e.om2i = a.m2i)
         ELSE {})
        \cup Clause("aout-in-place", e.inplace = 1)
        \cup Clause("input-modified", e.inputsame = 1)

\* single low level functions: e.what in {"cor","count","sum","sum-inverted"}
LowData(e) ==
    CASE e.what = "cor"   -> RawData(e, {"cor"})
      [] e.what = "count" -> RawData(e, {"count"})
      [] e.what = "sum"   ->        \* delay-dependent sum of the first signal
            LET B == BinsOf(e)
                V(x) == [p \in DOMAIN x |->
                            IF e.auto = 1 THEN Half(Both(B, x[p], x[p])) ELSE First(B, x[p])]
            IN [Empty EXCEPT !.m1r = V(e.f1r), !.m1i = V(e.f1i)]
      [] e.what = "sum-inverted" -> \* the same, delay = t - t_other
            LET Neg(t) == [i \in DOMAIN t |-> -t[i]]
                B == Bins(Neg(T1(e)), Neg(T2(e)), NDelays(e), FALSE, e.cplx = 1)
                V(x) == [p \in DOMAIN x |-> First(B, x[p])]
            IN [Empty EXCEPT !.m1r = V(e.f1r), !.m1i = V(e.f1i)]
LowCall(a, e) == IF e.aout = 1 THEN Accumulate(a, LowData(e)) ELSE LowData(e)
LowClauses(e, a) ==
    IF e.err # "" THEN {"exception"} ELSE
    LET L == OutLen(e)
        shape == IF e.what = "count" THEN <<L>> ELSE OutShape(e.dshape, e.axis, L)
    IN  Clause("shape", e.sh[1] = shape)
        \cup Clause("type", e.what = "count" \/ e.what \in {"sum", "sum-inverted"} \/ e.ctype = e.cplx)
        \cup Clause("corr-value", e.ocre = a.cre /\ e.ocim = a.cim)
        \cup Clause("count-value", e.ocnt = a.cnt)
        \cup Clause("sum-value", e.om1r = a.m1r /\ e.om1i = a.m1i)
        \cup Clause("aout-in-place", e.inplace = 1)
        \cup Clause("input-modified", e.inputsame = 1)

TraceNext ==
    /\ l < Len(Cases[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ LET e == Cases[tr].ev[l + 1] IN
          IF e.k = "exc" THEN acc' = acc /\ bad' = {"exception"}
          ELSE IF e.k = "raw"
          THEN acc' = Call(acc, e, Want) /\ bad' = RawClauses(e, acc')
          ELSE acc' = LowCall(acc, e) /\ bad' = LowClauses(e, acc')

\* total verdict: never stops at the first rejection, names trace, event, clauses
Verdict == /\ (bad = {} \/ PrintT(<<"BAD", tr, l, bad>>))
           /\ (l < Len(Cases[tr].ev) \/ PrintT(<<"END", tr, l>>))
=============================================================================
