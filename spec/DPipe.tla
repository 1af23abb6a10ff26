-------------------------------- MODULE DPipe --------------------------------
(***************************************************************************)
(* Stages of a pipeline that hand blocks of memory on: the source, a stage *)
(* that transforms (here: adds 100), a queue of another thread, a display  *)
(* that looks at what passes, and a consumer that keeps everything.        *)
(* Design question: whatever the order in which the threads run, the       *)
(* consumer has at every moment exactly the transformed video so far.      *)
(* Reuse = TRUE: the stage writes its results to one block of its own;     *)
(* Kept must then fail.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS N, Q, Reuse
VARIABLES src, mem, queue, kept, shown
vars == <<src, mem, queue, kept, shown>>
Init == src = 0 /\ mem = [b \in 0..(2 * N) |-> 0] /\ queue = <<>> /\ kept = <<>> /\ shown = 0
\* source frame k lies in block k, its transform in block N + k (or 0)
Stage == /\ src < N /\ Len(queue) < Q
         /\ src' = src + 1
         /\ LET out == IF Reuse THEN 0 ELSE N + src + 1 IN
            /\ mem' = [mem EXCEPT ![src + 1] = src + 1, ![out] = src + 101]
            /\ queue' = Append(queue, out)
         /\ UNCHANGED <<kept, shown>>
Show == /\ queue # <<>> /\ shown' = mem[Head(queue)] /\ UNCHANGED <<src, mem, queue, kept>>
Take == /\ queue # <<>> /\ kept' = Append(kept, Head(queue)) /\ queue' = Tail(queue) /\ UNCHANGED <<src, mem, shown>>
Next == Stage \/ Show \/ Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Stage) /\ WF_vars(Take)
Kept == \A i \in DOMAIN kept : mem[kept[i]] = 100 + i
Source == \A k \in 1..src : mem[k] = k
Finished == <>(Len(kept) = N)
=============================================================================
