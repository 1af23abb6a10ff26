------------------------------ MODULE TRequest -------------------------------
(***************************************************************************)
(* Trace validation of refusals (Request).  A trace is a history of        *)
(* requests to one session; well-formed ones are served, all others        *)
(* refused, and neither settings nor arrays change by a refusal.           *)
(***************************************************************************)
EXTENDS Request, TLC, Json
CONSTANT TraceFile
Cases == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
Served(q) == CASE q.kind = "linear" -> LinearServed(q)
               [] q.kind = "multi" -> MultiServed(q)
               [] q.kind = "stream" -> StreamServed(q)
               [] q.kind = "reshape" -> ReshapeServed(q)
               [] q.kind = "restore" -> RestoreServed(q)
Event(e) ==
    CASE e.k = "exc" -> {"exception"}
      [] e.k = "ask" ->
            (IF Served(e.q) THEN Clause("served", e.raised = 0) ELSE Clause("refused", e.raised = 1))
            \cup Clause("settings", e.kept = 1)
            \cup Clause("arrays", e.same = 1)
            \cup Clause("answer", e.raised = 1 \/ e.answer = 1)
TraceInit == tr \in DOMAIN Cases /\ l = 0 /\ bad = {}
TraceNext == /\ l < Len(Cases[tr].ev)
             /\ l' = l + 1 /\ UNCHANGED tr
             /\ bad' = Event(Cases[tr].ev[l + 1])
Verdict == /\ (bad = {} \/ PrintT(<<"BAD", tr, l, bad>>))
           /\ (l < Len(Cases[tr].ev) \/ PrintT(<<"END", tr, l>>))
=============================================================================
