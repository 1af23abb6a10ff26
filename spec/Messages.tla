------------------------------ MODULE Messages ------------------------------
(***************************************************************************)
(* What a call prints.  A log is a sequence of tokens                      *)
(*   [t, n, s]: t is the kind of the line                                  *)
(*   "head"  heading of an operation          "step"  step of an operation *)
(*   "param" parameter s (value n)            "rate"  n frames processed   *)
(*   "bar"   progress, n in tenths of a percent, s the filled part         *)
(*   "end"   the progress line is closed      "warn"  a warning            *)
(*   "try"   the program asks from within for a message of level n,        *)
(*   "mark"  which appears                                                 *)
(*   "set"   the program sets level n from within                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Tok(t, n, s) == [t |-> t, n |-> n, s |-> s]
Needs(k) == CASE k.t \in {"head", "bar", "end"} -> 1
              [] k.t \in {"step", "param", "rate"} -> 2
              [] k.t = "mark" -> k.n
              [] k.t \in {"warn", "set", "try"} -> -100
              [] OTHER -> 100                    \* nothing else is ever printed

\* level in force at each token, when the call starts at lev
RECURSIVE Levels(_, _, _)
Levels(log, i, lev) ==
    IF i > Len(log) THEN <<lev>>
    ELSE <<lev>> \o Levels(log, i + 1, IF log[i].t = "set" THEN log[i].n ELSE lev)
LevelAt(log, lev) == Levels(log, 1, lev)         \* has one element more: the level at the end

Count(log, t) == Cardinality({i \in DOMAIN log : log[i].t = t})
Of(log, t) == SelectSeq(log, LAMBDA k : k.t = t)
Bars(log) == Of(log, "bar")

Visible(log, lev) == LET L == LevelAt(log, lev) IN \A i \in DOMAIN log : L[i] >= Needs(log[i])
\* one heading for the operation asked for, none for those it is made of
Headings(log, lev, heads, done) ==
    IF lev < 1 THEN TRUE ELSE IF done THEN Count(log, "head") = heads ELSE Count(log, "head") <= heads
Rising(log) == LET b == Bars(log) IN \A i \in 1..(Len(b) - 1) : b[i].n <= b[i + 1].n
Filled(log) == LET b == Bars(log) IN \A i \in DOMAIN b : b[i].n \in 0..1000 /\ b[i].s \in 0..50
                                        /\ b[i].n - 20 * b[i].s \in -1..20
\* starts at zero if it could be seen from the start, ends at 1000 exactly when all is done
\* (required if the program let the level be)
Starts(log, lev) == LET b == Bars(log) IN (lev >= 1 /\ b # <<>>) => b[1].n = 0
Ends(log, lev, shows, done) ==
    LET b == Bars(log) L == LevelAt(log, lev) IN
    /\ (done /\ shows /\ \A i \in DOMAIN L : L[i] >= 1) => (b # <<>> /\ b[Len(b)].n = 1000)
    /\ ~done => \A i \in DOMAIN b : b[i].n < 1000
\* the line is closed after, and only after, one hundred percent
Closed(log) ==
    /\ \A i \in DOMAIN log : log[i].t = "end" => (i > 1 /\ log[i - 1].t = "bar" /\ log[i - 1].n = 1000)
    /\ Cardinality({i \in DOMAIN log : log[i].t = "bar" /\ log[i].n = 1000}) <= 1
    /\ \A i \in DOMAIN log : (log[i].t = "bar" /\ log[i].n = 1000) => (i < Len(log) /\ log[i + 1].t = "end")
Processed(log, lev, n, done) ==
    LET L == LevelAt(log, lev) IN
    /\ \A i \in DOMAIN log : log[i].t = "rate" => log[i].n = n
    /\ Count(log, "rate") <= 1
    /\ (done /\ n >= 0 /\ \A i \in DOMAIN L : L[i] >= 2) => Count(log, "rate") = 1
\* every message of the program is seen exactly when its level was in force
Marks(log, lev) ==
    LET L == LevelAt(log, lev) IN
    \A i \in DOMAIN log :
        /\ log[i].t = "try" => ((i < Len(log) /\ log[i + 1].t = "mark" /\ log[i + 1].n = log[i].n) <=> L[i] >= log[i].n)
        /\ log[i].t = "mark" => (i > 1 /\ log[i - 1].t = "try")
\* parameters: what the result shows was in force.  facts: sequence of <<name, value>>
Told(log, lev, facts) ==
    \A f \in DOMAIN facts : \A i \in DOMAIN log :
        (log[i].t = "param" /\ log[i].s = facts[f][1]) => log[i].n = facts[f][2]
Lists(log, lev, facts) ==
    lev >= 2 => \A f \in DOMAIN facts : \E i \in DOMAIN log : log[i].t = "param" /\ log[i].s = facts[f][1]
=============================================================================
