-------------------------------- MODULE TView -------------------------------
(***************************************************************************)
(* Trace validation of viewers.                                            *)
(***************************************************************************)
EXTENDS View, Select, TLC, Json
CONSTANT TraceFile
Cases == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, st, shown, bad
vars == <<tr, l, st, shown, bad>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
C == Cases[tr]
ValidNorms(d) == IF d = 0 THEN {} ELSE {n \in 0..15 : C.planes[d][n + 1] # <<>>}

(* what a request makes of the state *)
After(s, e) ==
    CASE e.op = "data" -> SetData(s, e.d)
      [] e.op = "norm" -> SetNorm(s, e.n, ValidNorms(s.data))
      [] e.op = "mask" -> SetSel(s, e.sel)
      [] e.op = "mode" -> SetMode(s, e.mode)
      [] e.op = "slide" -> Slide(s, e.i, e.v)
      [] e.op = "tick" -> Tick(s, e.i, ValidNorms(s.data))
      [] e.op = "plot" -> Plotted(s)
\* requests of the program do not touch the plot
Redraws(e) == e.op \in {"plot", "slide", "tick", "mode"}

(* cells that the selection names *)
Request(s) == LET ed == C.edges[s.sel[2] + 1][s.sel[3] + 1] IN
              [mode |-> "rfft2", h |-> C.h, w |-> C.w, sh |-> C.sh, mask |-> C.mask, lo |-> ed[1], hi |-> ed[2], step |-> C.steps[s.sel[4] + 1]]
ArrayCells(s) == {p \in Ix(C.h) \X Ix(C.w) : \A i \in DOMAIN C.axes : p[C.axes[i] + 1] = s.sel[i] % (IF C.axes[i] = 0 THEN C.h ELSE C.w)}
Cells(s) == IF C.cls = "array" THEN ArrayCells(s) ELSE Chosen(Request(s), s.sel[1])
Entry(s, X, p, t) == IF C.cls = "array" THEN At(X, p[1], p[2])[t] ELSE Value(Request(s), X, p[1], p[2])[t]

\* o: observed value (hundredths; for phases <<cos, sin>> in thousandths)
PointOk(s, X, P, t, o) ==
    LET V == {p \in P : ~IsNan(Entry(s, X, p, t))}
        n == Cardinality(V)
        re == SumSet(LAMBDA p : Entry(s, X, p, t)[1], V)
        im == SumSet(LAMBDA p : Entry(s, X, p, t)[2], V)
        \* array viewers do not leave out undefined values
        undefined == IF C.cls = "array" THEN V # P \/ P = {} ELSE n = 0
    IN IF undefined THEN o = <<NAN, NAN>> \/ (s.mode = "imag" /\ o = <<0, 0>>) \* the imaginary part of real data
       ELSE CASE s.mode = "real" -> Abs(o[1] * n - re) <= 2 * n
              [] s.mode = "imag" -> Abs(o[1] * n - im) <= 2 * n
              [] s.mode = "abs" -> LET a == re \div n  b == im \div n IN Abs(o[1] - ISqrt(a * a + b * b)) <= 5
              [] s.mode = "phase" -> LET a == re \div n  b == im \div n IN
                     \/ Abs(a) + Abs(b) <= 20
                     \/ /\ Abs(a * o[2] - b * o[1]) <= 3000 + 2 * (Abs(a) + Abs(b))
                        /\ a * o[1] + b * o[2] >= 0
CurveOk(s, y) == LET X == C.planes[s.data][s.norm + 1]  P == Cells(s) IN
                 Len(y) = Len(C.t[s.data]) /\ \A t \in DOMAIN y : PointOk(s, X, P, t, y[t])
Ready(s) == s.data # 0 /\ s.has /\ s.norm \in ValidNorms(s.data)

Judge(s, e) ==
    Clause("harness", C.cls = "array" \/ ~s.has \/ Certain(Request(s)))
    \cup (IF e.get = <<>> THEN Clause("refused", ~Ready(s))
          ELSE IF ~Ready(s) THEN {"not-refused"}
          ELSE Clause("data", CurveOk(s, e.get.y)) \cup Clause("time", e.get.t = C.t[s.data]))
    \cup Clause("refusal", (e.raised = 1) <=> (e.op = "norm" /\ e.n \notin ValidNorms(s.data)))
    \cup (IF C.cls = "array" THEN {}
          ELSE Clause("selected", e.op # "mask" \/ (e.ok = 1 <=> Cells(s) # {}))
               \cup Clause("k", IF ~s.has THEN e.gk = -2 ELSE IF Cells(s) = {} THEN e.gk = NAN ELSE KOk(Request(s), Cells(s), e.gk)))
    \cup (IF Redraws(e) THEN Clause("plot", e.line = e.get) \* the curve is the one that get_data returns
          ELSE Clause("plot-changed", e.line = shown))
    \cup Clause("input-modified", e.same = 1)

VideoMove(e, v) ==
    CASE e.op = "next" -> v.at + 1 [] e.op = "previous" -> v.at - 1 [] e.op = "slide" -> e.v [] e.op = "play" -> C.count - 1
JudgeVideo(v, e) ==
    Clause("position", e.at = v.at) \cup Clause("frame", e.img = C.frames[v.shown + 1]) \cup Clause("frames-read", C.list = 1 \/ e.taken = v.taken)

Step(s, e) ==
    CASE e.k = "exc" -> [st |-> s, bad |-> {"exception"}]
      [] e.k = "video" -> LET v == IF e.op = "open" THEN s ELSE Moved(s, VideoMove(e, s), C.count, Len(C.frames), C.list = 1) IN [st |-> v, bad |-> JudgeVideo(v, e)]
      [] e.k = "refuse" -> [st |-> s, bad |-> Clause("refusal", e.raised = 1 - e.valid)]
      [] e.k = "view" -> LET n == After(s, e) IN [st |-> n, bad |-> Judge(n, e)]

TraceInit == /\ tr \in DOMAIN Cases /\ l = 0 /\ bad = {} /\ shown = <<>>
             /\ st = IF Cases[tr].cls = "video" THEN [at |-> 0, shown |-> 0, taken |-> IF Cases[tr].list = 1 THEN 0 ELSE 1]
                     ELSE [Nothing EXCEPT !.norm = Cases[tr].norm, !.has = (Cases[tr].cls = "array")]
TraceNext == /\ l < Len(C.ev)
             /\ l' = l + 1 /\ UNCHANGED tr
             /\ LET e == C.ev[l + 1]  r == Step(st, e) IN
                /\ st' = r.st /\ bad' = r.bad
                /\ shown' = IF e.k = "view" THEN e.line ELSE shown
Verdict == /\ (bad = {} \/ PrintT(<<"BAD", tr, l, bad>>))
           /\ (l < Len(Cases[tr].ev) \/ PrintT(<<"END", tr, l>>))
=============================================================================
