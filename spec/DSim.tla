-------------------------------- MODULE DSim --------------------------------
(* Two cameras that take frames of one stream at times of their own: every *)
(* schedule.  Frames wait for their counterpart.                           *)
EXTENDS Sim
CONSTANTS MaxT, MaxFrames, Lossy
VARIABLES t1, t2, i, w1, w2, out
vars == <<t1, t2, i, w1, w2, out>>
Schedules == {Ascending(S) : S \in {S \in SUBSET (0..MaxT) : Cardinality(S) \in 1..MaxFrames}}
Init == /\ t1 \in Schedules /\ t2 \in Schedules /\ i = 0 /\ w1 = <<>> /\ w2 = <<>> /\ out = <<>>
Has(t) == \E k \in DOMAIN t : t[k] = i
Put(w, t) == IF ~Has(t) THEN w ELSE IF Lossy THEN <<i>> ELSE Append(w, i)
Next == /\ i <= MaxT
        /\ i' = i + 1 /\ UNCHANGED <<t1, t2>>
        /\ LET a == Put(w1, t1)  b == Put(w2, t2) IN
           IF a # <<>> /\ b # <<>>
           THEN w1' = Tail(a) /\ w2' = Tail(b) /\ out' = Append(out, <<a[1], b[1], i + 1>>)
           ELSE w1' = a /\ w2' = b /\ UNCHANGED out
Spec == Init /\ [][Next]_vars
Matched == \A k \in DOMAIN out : out[k][1] = t1[k] /\ out[k][2] = t2[k] /\ out[k][3] = ReadFor(k, t1, t2)
Complete == Len(out) = Delivered(t1, t2, i)
=============================================================================
