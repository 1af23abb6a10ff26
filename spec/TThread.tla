------------------------------- MODULE TThread -------------------------------
(***************************************************************************)
(* Trace validation of background iteration and display.  The log of a run *)
(* has only what can be seen (source read, frame delivered, frame shown);  *)
(* S is the set of all states of module Threaded that explain the log so   *)
(* far, closed under the steps that cannot be seen.  A log is rejected     *)
(* when no state is left.                                                  *)
(***************************************************************************)
EXTENDS Threaded, TLC, Json
CONSTANT TraceFile
Cases == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, bad, S, last
vars == <<tr, l, bad, S, last>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a >= b THEN a ELSE b

Step(e, g) ==
    CASE e.k = "next" -> UNION {Next_(s, g) : s \in S}
      [] e.k = "obtain" -> UNION {Obtain(s, g, e.n) : s \in S}
      [] e.k = "srcend" -> UNION {SourceEnd(s, g) : s \in S}
      [] e.k = "recv" -> UNION {Recv(s, g, e.n) : s \in S}
      [] e.k \in {"end", "exc"} -> UNION {End(s, g) : s \in S}
      [] e.k = "close" -> UNION {Close(s, g) : s \in S}
      [] e.k = "shown" -> UNION {Shown(s, g, e.v, e.n) : s \in S}
      [] e.k = "quiet" -> {s \in S : Stuck(s, g)}
      [] e.k = "starved" -> {s \in S : Starved(s, g)}
      [] OTHER -> S

\* the difference image, times 64: x - y relative to twice the maximum of both, shifted by one half
RECURSIVE MaxOf(_)
MaxOf(v) == IF Len(v) = 1 THEN v[1] ELSE Max(v[1], MaxOf(Tail(v)))
RECURSIVE SumOf(_)
SumOf(v) == IF v = <<>> THEN 0 ELSE v[1] + SumOf(Tail(v))
\* frames divided by their mean: multiply by size and by the other frame's sum (common factors cancel)
Weighted(x, y) == [i \in 1..Len(x) |-> x[i] * SumOf(y)]
Diff(x, y) == LET m == 2 * Max(MaxOf(x), MaxOf(y)) IN [i \in 1..Len(x) |-> (64 * x[i] - 64 * y[i]) \div m + 32]
DiffImage(e) == IF e.normalize = 1 THEN Diff(Weighted(e.x, e.y), Weighted(e.y, e.x)) ELSE Diff(e.x, e.y)
RECURSIVE Selected(_, _)
Selected(g, k) == IF k = 0 THEN 0
                  ELSE IF g.dt = <<>> \/ \E i \in DOMAIN g.dt : g.dt[i] = Abs(g.t2[k] - g.t1[k]) THEN k
                  ELSE Selected(g, k - 1)

Others(e, g) ==
    CASE e.k = "obtain" -> Clause("background-thread", e.main = IF Background(g) THEN 0 ELSE 1)
      [] e.k = "recv" -> Clause("frame-content", e.ok = 1)
                         \cup Clause("title", e.title = g.V + 1)
                         \cup Clause("displayed-image", \A v \in 1..g.V : e.pix[v] = last[v])
      [] e.k = "shown" -> Clause("camera", e.cam = g.ids[e.v]) \cup Clause("display-thread", e.main = 1)
      [] e.k = "end" -> Clause("registry-cleared", g.kind = "threaded" \/ e.title = 1)
                        \cup Clause("error-lost", g.kind # "play" \/ g.fail = 0)
                        \cup Clause("thread-left", e.alive = 0)
      [] e.k = "exc" -> Clause("exception", g.fail = 1)
      [] e.k = "late" -> {"no-answer"}
      [] e.k = "diff" -> Clause("difference-image", e.im = IF Selected(g, e.n) = 0 THEN <<>> ELSE DiffImage(g.fr[Selected(g, e.n)]))
                         \cup Clause("frame-content", e.ok = 1)
      [] e.k = "diffend" -> Clause("length", e.n = g.len)
      [] OTHER -> {}

TraceInit == /\ tr \in DOMAIN Cases /\ l = 0 /\ bad = {}
             /\ S = {S0(Cases[tr].cfg)}
             /\ last = [v \in 1..Cases[tr].cfg.V |-> 0]
TraceNext == /\ l < Len(Cases[tr].ev)
             /\ l' = l + 1 /\ UNCHANGED tr
             /\ LET e == Cases[tr].ev[l + 1]  g == Cases[tr].cfg
                    T == Closure(Step(e, g), g) IN
                /\ S' = T
                /\ bad' = (IF S # {} /\ T = {} THEN {"no schedule explains: " \o e.k} ELSE {}) \cup Others(e, g)
                /\ last' = IF e.k = "shown" THEN [last EXCEPT ![e.v] = e.n] ELSE last
Verdict == /\ (bad = {} \/ PrintT(<<"BAD", tr, l, bad>>))
           /\ (l < Len(Cases[tr].ev) \/ PrintT(<<"END", tr, l>>))
=============================================================================
