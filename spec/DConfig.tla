------------------------------- MODULE DConfig ------------------------------
(* Every history of settings requests, with nested brackets of silence.    *)
EXTENDS Config
CONSTANTS MaxDepth, Leaky
VARIABLES st, stack, last
vars == <<st, stack, last>>
Inst == {"numpy", "scipy", "matplotlib"}
Most == 2
Levels == {-1, 0, 1, 2}
Init == /\ st = [verbose |-> 0, showlib |-> "matplotlib", fftlib |-> "numpy", rfft2lib |-> "numpy", fftn |-> 1, nbn |-> 1]
        /\ stack = <<>> /\ last = "ok"
Do(r) == st' = r.st /\ last' = r.out
Setters == /\ stack = <<>> /\ UNCHANGED stack
           /\ \/ \E n \in Levels : Do(SetVerbose(st, n))
              \/ \E f \in {"fftlib", "rfft2lib"}, n \in FftNames \cup {"other"} : Do(SetLib(st, f, n, Inst))
              \/ \E n \in ShowNames \cup {"other"} : Do(SetLib(st, "showlib", n, Inst))
              \/ \E n \in 0..3 : Do(SetNumbaThreads(st, n, Most))
              \/ \E n \in 1..2 : Do(SetFftThreads(st, n))
\* a computation that silences its parts; it may fail inside
Enter == /\ Len(stack) < MaxDepth
         /\ stack' = Append(stack, st.verbose) /\ Do(Disable(st))
Leave == /\ stack # <<>>
         /\ Do(Enable(st, stack[Len(stack)])) /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
\* without the restoring decorator the failure leaves the level as it is
Fail == /\ stack # <<>> /\ UNCHANGED last
        /\ st' = IF Leaky THEN st ELSE Enable(st, stack[1]).st
        /\ stack' = <<>>
Next == Setters \/ Enter \/ Leave \/ Fail
Spec == Init /\ [][Next]_vars
TypeOK == /\ st.fftlib \in Inst /\ st.rfft2lib \in Inst /\ st.showlib \in Inst /\ st.nbn \in 1..Most
Silent == stack # <<>> => ~Printed(st, 1)
\* outside brackets the level is one that was asked for
Restored == stack = <<>> => st.verbose >= 0
Brackets == [][(stack # <<>> /\ stack' = <<>>) => st'.verbose = stack[1]]_vars
RefusedKeeps == [][last' \in {"raise", "warn"} /\ last # last' => st' = st]_vars
=============================================================================
