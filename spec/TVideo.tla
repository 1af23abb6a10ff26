------------------------------- MODULE TVideo -------------------------------
(***************************************************************************)
(* Trace validation of video operators.  A trace is one pipeline that is   *)
(* pulled multi-frame by multi-frame; the state is the number of           *)
(* multi-frames delivered so far.                                          *)
(* cfg: src = source multi-frames, dt = their dtype, ops = operators.      *)
(***************************************************************************)
EXTENDS VideoOps, Json
CONSTANT TraceFile
Cases == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, bad, n
vars == <<tr, l, bad, n>>
Clause(name, ok) == IF ok THEN {} ELSE {name}

N(g) == Length(g.ops, Len(g.src))
NCam(g) == g.ncam
\* every second operand must have as many cameras; a region must be two slices
Legal(g) == /\ g.badroi = 0
            /\ \A i \in DOMAIN g.ops : g.ops[i].name \in Zips => \A k \in DOMAIN g.ops[i].y : Len(g.ops[i].y[k]) = NCam(g)
Want(g, k) == Run(g.ops, g.src[k], k, 1)
SrcWant(g, k) == [f |-> Run(Inplace(g.ops), g.src[k], k, 1), sc |-> ScaleOf(Inplace(g.ops), 1)]
Total(g) == ScaleOf(g.ops, 1)
ScaleUp(fs, a) == [c \in DOMAIN fs |-> [fs[c] EXCEPT !.v = [i \in DOMAIN @ |-> a * @[i]]]]

Event(e, g) ==
    CASE e.k = "exc" -> {"exception"}
      [] e.k = "pull" ->
            IF e.raised = 1 THEN Clause("refused", ~Legal(g))
            ELSE IF ~Legal(g) /\ N(g) > 0 THEN {"not-refused"}
            ELSE IF e.end = 1 THEN Clause("ended-early", n = N(g))
                              \cup Clause("lookahead", \A s \in DOMAIN e.used : e.used[s] <= n + 1)
            ELSE IF n >= N(g) THEN {"too-many-frames"}
            ELSE Clause("values", e.f = Want(g, n + 1))
                 \cup Clause("dtype", \A i \in DOMAIN e.dt : e.dt[i] = DType(g.ops, g.dt))
                 \cup Clause("order-of-sources", \A s \in DOMAIN e.used : e.used[s] = n + 1)
                 \cup Clause("source-frames", LET w == SrcWant(g, n + 1) IN e.src = ScaleUp(w.f, 64 \div w.sc))
                 \cup Clause("operand-modified", e.ysame = 1)
      [] e.k = "sink" ->
            LET m == N(g)
                misfit == e.count # -1 /\ e.count # m
                ok == Legal(g) /\ m > 0 /\ ~misfit /\ (e.count # -1 \/ e.haslen = 1)
            IN IF e.raised = 1 THEN Clause("refused", ~ok)
               ELSE IF ~ok THEN {"not-refused"}
               ELSE Clause("count", e.n = IF e.count = -1 THEN m ELSE e.count)
                    \cup Clause("cameras", e.ncam = NCam(g))
                    \cup Clause("values", Len(e.f) >= m /\ \A k \in 1..m : e.f[k] = Want(g, k))
                    \cup Clause("dtype", \A i \in DOMAIN e.dt : e.dt[i] = DType(g.ops, g.dt))
                    \cup Clause("stored", e.stored = 1)
      [] e.k = "again" ->       \* a loaded video can be read again
            Clause("repeatable", e.f = [k \in 1..N(g) |-> Want(g, k)])

TraceInit == tr \in DOMAIN Cases /\ l = 0 /\ bad = {} /\ n = 0
TraceNext == /\ l < Len(Cases[tr].ev)
             /\ l' = l + 1 /\ UNCHANGED tr
             /\ LET e == Cases[tr].ev[l + 1] IN
                /\ bad' = Event(e, Cases[tr].cfg)
                /\ n' = IF e.k = "pull" /\ e.end = 0 /\ e.raised = 0 THEN n + 1 ELSE n
Verdict == /\ (bad = {} \/ PrintT(<<"BAD", tr, l, bad>>))
           /\ (l < Len(Cases[tr].ev) \/ PrintT(<<"END", tr, l>>))
=============================================================================
