-------------------------------- MODULE THeap --------------------------------
(***************************************************************************)
(* Trace validation of the writing discipline (Heap).  A trace is a        *)
(* history of calls; home follows where every array lives.                 *)
(***************************************************************************)
EXTENDS Heap, TLC, Json
CONSTANT TraceFile
Cases == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, bad, home
vars == <<tr, l, bad, home>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
SetOf(s) == {s[i] : i \in DOMAIN s}
Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]

\* where the results lie: in the memory of the arrays they share, or in a new block
RECURSIVE After(_, _, _)
After(h, res, i) ==
    IF i > Len(res) THEN h
    ELSE LET a == res[i][1]
             nh == IF a \in DOMAIN h THEN h
                   ELSE Put(h, a, IF Len(res[i]) > 1 /\ res[i][2] \in DOMAIN h THEN h[res[i][2]] ELSE a)
         IN After(nh, res, i + 1)
\* a result shares memory only with what it may
Held(h, kind, ins, outs, x) ==
    \A j \in 2..Len(x) : x[j] \in DOMAIN h => h[x[j]] \in MayHold(h, kind, ins, outs)
Event(e) ==
    CASE e.k = "exc" -> {"exception"}
      [] e.k = "new" -> {}
      [] e.k = "call" ->
            Clause("kind", e.kind \in Kinds)
            \cup Clause("touched", SetOf(e.changed) \subseteq MayChange(home, e.kind, SetOf(e.ins), SetOf(e.outs)))
            \cup Clause("shared", \A i \in DOMAIN e.res : Held(home, e.kind, SetOf(e.ins), SetOf(e.outs), e.res[i]))
Home(e) ==
    CASE e.k = "new" -> Put(home, e.a, IF Len(e.of) > 0 THEN home[e.of[1]] ELSE e.a)
      [] e.k = "call" -> After(home, e.res, 1)
      [] OTHER -> home
TraceInit == tr \in DOMAIN Cases /\ l = 0 /\ bad = {} /\ home = [x \in {} |-> 0]
TraceNext == /\ l < Len(Cases[tr].ev)
             /\ l' = l + 1 /\ UNCHANGED tr
             /\ bad' = Event(Cases[tr].ev[l + 1])
             /\ home' = Home(Cases[tr].ev[l + 1])
Verdict == /\ (bad = {} \/ PrintT(<<"BAD", tr, l, bad>>))
           /\ (l < Len(Cases[tr].ev) \/ PrintT(<<"END", tr, l>>))
=============================================================================
