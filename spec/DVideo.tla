------------------------------- MODULE DVideo -------------------------------
(***************************************************************************)
(* Design model of a chain of lazy operators: a demand travels up the      *)
(* chain to the sources, a value travels down.  Operators in Zip also pull *)
(* one multi-frame from a source of their own (after the main one).        *)
(* Values are symbolic: the sets of source frames that went into them.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Stages, Zip, MaxLen
VARIABLES len, used, at, dir, val, out, ended
vars == <<len, used, at, dir, val, out, ended>>
\* source 0 is the video, source s the second operand of stage s
Sources == {0} \cup Zip
MinLen == CHOOSE m \in {len[s] : s \in Sources} : \A s \in Sources : m <= len[s]
Init == /\ len \in [Sources -> 0..MaxLen]
        /\ used = [s \in Sources |-> 0]
        /\ at = Stages + 1 /\ dir = "idle" /\ val = {} /\ out = <<>> /\ ended = FALSE
\* the consumer asks for the next multi-frame
Ask == dir = "idle" /\ ~ended /\ at' = Stages /\ dir' = "up" /\ UNCHANGED <<len, used, val, out, ended>>
Up  == dir = "up" /\ at > 0 /\ at' = at - 1 /\ UNCHANGED <<len, used, dir, val, out, ended>>
\* the video source answers, or ends
Src == /\ dir = "up" /\ at = 0
       /\ IF used[0] < len[0] THEN used' = [used EXCEPT ![0] = @ + 1] /\ val' = {<<0, used[0] + 1>>} /\ dir' = "down" /\ UNCHANGED ended
          ELSE ended' = TRUE /\ dir' = "idle" /\ UNCHANGED <<used, val>>
       /\ at' = 1 /\ UNCHANGED <<len, out>>
\* stage `at` combines the value with its own source
Down == /\ dir = "down" /\ at <= Stages
        /\ IF at \in Zip
           THEN IF used[at] < len[at]
                THEN used' = [used EXCEPT ![at] = @ + 1] /\ val' = val \cup {<<at, used[at] + 1>>} /\ at' = at + 1 /\ UNCHANGED <<dir, ended>>
                ELSE ended' = TRUE /\ dir' = "idle" /\ UNCHANGED <<used, val, at>>
           ELSE at' = at + 1 /\ UNCHANGED <<used, val, dir, ended>>
        /\ UNCHANGED <<len, out>>
Deliver == /\ dir = "down" /\ at = Stages + 1
           /\ out' = Append(out, val) /\ dir' = "idle" /\ UNCHANGED <<len, used, at, val, ended>>
Next == Ask \/ Up \/ Src \/ Down \/ Deliver
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the k-th result is made of the k-th multi-frame of every source
Aligned == \A k \in DOMAIN out : out[k] = { <<s, k>> : s \in Sources }
\* at most one multi-frame more than delivered is taken from any source
NoLookahead == \A s \in Sources : used[s] <= Len(out) + 1
\* the chain ends exactly when the shortest source ends
Complete == ended => Len(out) = MinLen
Ends == <>ended
=============================================================================
