----------------------------- MODULE DMessages ------------------------------
(***************************************************************************)
(* A streamed computation: for every frame it asks the program for data    *)
(* (who may print or set the level there), works with printing switched    *)
(* off on operations that print themselves, and tells its progress.  The   *)
(* log that appears satisfies the predicates the traces are judged with.   *)
(* Careless = TRUE: an inner operation switches printing on without        *)
(* looking at what was in force before.                                    *)
(***************************************************************************)
EXTENDS Messages
CONSTANTS NFrames, Careless
VARIABLES pc, i, level, saved, log, lev0
vars == <<pc, i, level, saved, log, lev0>>
Abs(x) == IF x < 0 THEN -x ELSE x
Print(l, k) == IF level >= Needs(k) THEN Append(l, k) ELSE l
Bar(l, n) == LET b == Print(l, Tok("bar", (1000 * n) \div NFrames, (50 * n) \div NFrames)) IN
             IF n = NFrames /\ level >= 1 THEN Append(b, Tok("end", 0, 0)) ELSE b
Init == /\ pc = "ask" /\ i = 0 /\ level \in {0, 1, 2} /\ saved = 0 /\ log = <<>> /\ lev0 = level
\* the program delivers a frame; it may print, or set the level; or there is none
Ask == /\ pc = "ask" /\ i < NFrames
       /\ \/ /\ \E m \in {1, 2} : log' = Print(Append(log, Tok("try", m, 0)), Tok("mark", m, 0))
             /\ UNCHANGED level
          \/ /\ i > 0 /\ \E v \in {0, 1, 2} : level' = v /\ log' = Append(log, Tok("set", v, 0))
          \/ UNCHANGED <<level, log>>
       /\ pc' = IF i = 0 THEN "start" ELSE "work"
       /\ UNCHANGED <<i, saved, lev0>>
Short == pc = "ask" /\ i < NFrames /\ pc' = "short" /\ UNCHANGED <<i, level, saved, log, lev0>>
Start == /\ pc = "start" /\ pc' = "work"
         /\ log' = Bar(Print(Print(log, Tok("head", 0, 0)), Tok("param", NFrames, "length")), 0)
         /\ UNCHANGED <<i, level, saved, lev0>>
Work == /\ pc = "work" /\ pc' = "inner" /\ saved' = level /\ level' = -Abs(level) /\ UNCHANGED <<i, log, lev0>>
\* an operation inside: prints its heading, switches printing off and on for what it uses itself
Inner == /\ pc = "inner" /\ pc' = "inner2"
         /\ log' = Print(log, Tok("head", 1, 0))
         /\ level' = IF Careless THEN Abs(level) ELSE level
         /\ UNCHANGED <<i, saved, lev0>>
Inner2 == /\ pc = "inner2" /\ pc' = "tell" /\ log' = Print(log, Tok("step", 1, 0)) /\ level' = saved
          /\ UNCHANGED <<i, saved, lev0>>
Tell == /\ pc = "tell" /\ i' = i + 1 /\ log' = Bar(log, i + 1) /\ pc' = IF i + 1 = NFrames THEN "last" ELSE "ask"
        /\ UNCHANGED <<level, saved, lev0>>
Last == /\ pc = "last" /\ pc' = "done" /\ log' = Print(log, Tok("rate", NFrames, 0)) /\ UNCHANGED <<i, level, saved, lev0>>
Next == Ask \/ Short \/ Start \/ Work \/ Inner \/ Inner2 \/ Tell \/ Last
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Over == pc \in {"done", "short"}
Done == pc = "done"
Steps == \A k \in DOMAIN log : log[k].t # "step"
Seen == /\ Visible(log, lev0) /\ Rising(log) /\ Filled(log) /\ Starts(log, lev0)
Whole == Over => /\ Headings(log, lev0, 1, Done) /\ Ends(log, lev0, TRUE, Done) /\ Closed(log)
                 /\ Processed(log, lev0, NFrames, Done) /\ Marks(log, lev0) /\ Told(log, lev0, <<<<"length", NFrames>>>>)
                 /\ (Done => Lists(log, lev0, <<<<"length", NFrames>>>>))
Inside == pc \in {"inner", "inner2"} => \A k \in DOMAIN log : log[k].t # "step" /\ (log[k].t = "head" => log[k].n = 0)
LevelKept == [][level' # level => pc \in {"ask", "work", "inner", "inner2"}]_vars
Ended == <>Over
=============================================================================
