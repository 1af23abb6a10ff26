----------------------------- MODULE TMessages ------------------------------
(***************************************************************************)
(* Trace validation of what is printed, in histories of settings and calls *)
(***************************************************************************)
EXTENDS Messages, TLC, Json
CONSTANT TraceFile
Cases == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, bad, lev
vars == <<tr, l, bad, lev>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
AbsM(x) == IF x < 0 THEN -x ELSE x
NoValue == -99

CallOk(e) ==
    LET done == e.raised = 0 IN
    Clause("visible", Visible(e.log, lev))
    \cup Clause("headings", Headings(e.log, lev, e.heads, done))
    \cup Clause("progress-falls", Rising(e.log))
    \cup Clause("progress-bar", Filled(e.log))
    \cup Clause("progress-start", Starts(e.log, lev))
    \cup Clause("progress-end", Ends(e.log, lev, e.shows = 1, done))
    \cup Clause("line-closed", Closed(e.log))
    \cup Clause("frames-processed", Processed(e.log, lev, e.frames, done))
    \cup Clause("program-messages", Marks(e.log, lev))
    \cup Clause("parameters", Told(e.log, lev, e.facts))
    \cup Clause("parameters-listed", done => Lists(e.log, lev, e.facts))
    \cup Clause("warning", Count(e.log, "warn") = e.warns)

Event(e) ==
    CASE e.k = "exc" -> {"exception"}
      [] e.k = "call" -> CallOk(e)
      [] OTHER -> Clause("previous", e.ret = lev) \cup Clause("quiet", e.log = <<>>)
After(e) ==
    CASE e.k = "set" -> IF e.v > 0 THEN e.v ELSE 0
      [] e.k = "disable" -> -AbsM(lev)
      [] e.k = "enable" -> IF e.v = NoValue THEN AbsM(lev) ELSE e.v
      [] e.k = "call" -> LET L == LevelAt(e.log, lev) IN L[Len(L)]
      [] OTHER -> lev

TraceInit == tr \in DOMAIN Cases /\ l = 0 /\ bad = {} /\ lev = 0
TraceNext == /\ l < Len(Cases[tr].ev)
             /\ l' = l + 1 /\ UNCHANGED tr
             /\ bad' = Event(Cases[tr].ev[l + 1])
             /\ lev' = After(Cases[tr].ev[l + 1])
Verdict == /\ (bad = {} \/ PrintT(<<"BAD", tr, l, bad>>))
           /\ (l < Len(Cases[tr].ev) \/ PrintT(<<"END", tr, l>>))
=============================================================================
