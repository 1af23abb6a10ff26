------------------------------ MODULE DRequest -------------------------------
(***************************************************************************)
(* A stream is worked off without asking first whether the request can be  *)
(* served.  Design questions: requests that Request calls well-formed get  *)
(* to the end with every pair of frames seen; the refused ones get stuck,  *)
(* lose pairs or read what nobody asked for - but for n = chunk + 1, which *)
(* is refused although it could be served.                                 *)
(* Trusting = TRUE: requests are served whatever the supply, which Sound   *)
(* must reject.                                                            *)
(***************************************************************************)
EXTENDS Request
CONSTANTS Max, Trusting
VARIABLES q, i, state
vars == <<q, i, state>>
Asked == [count : 1..Max, chunk : -1..Max + 1, n : -1..Max + 1, supply : 0..Max + 1, l1 : -1..Max + 1, l2 : {-1, Max}]
Full(r) == [cross |-> 1, method |-> "corr", norm |-> -1, cplx |-> 0, binning |-> -1, mode |-> "full", nlevel |-> -1,
            l1 |-> r.l1, l2 |-> r.l2, count |-> r.count, chunk |-> r.chunk, n |-> r.n, supply |-> r.supply, known |-> -1,
            odd |-> 0, hasmask |-> 0, mshape |-> <<>>, mcount |-> 0, td |-> -1, frame |-> <<2>>]
Unchunked(r) == IF r.n > 0 THEN Halved(r.count, r.n) ELSE r.count
C == IF q.chunk = -1 THEN Unchunked(q) ELSE q.chunk
Ok(r) == LET f == IF Trusting THEN [Full(r) EXCEPT !.supply = 99] ELSE Full(r) IN StreamServed(f)
Init == q \in {r \in Asked : r.chunk # 0} /\ i = 0 /\ state = "read"
\* half chunk that frame j lies in
Half(j) == j \div C
Read ==
    /\ state = "read"
    /\ IF q.n < 1 \/ C < 1 THEN state' = "endless" /\ UNCHANGED i
       ELSE IF C > q.count THEN state' = "unasked" /\ UNCHANGED i
       ELSE IF i = Largest(C, q.count) THEN state' = "done" /\ UNCHANGED i
       ELSE IF i >= q.supply THEN state' = "dry" /\ UNCHANGED i
       ELSE IF (q.l1 # -1 \/ q.l2 # -1) /\ (i >= q.l1 \/ i >= q.l2) THEN state' = "timeless" /\ UNCHANGED i
       ELSE IF \E d \in 0..(q.n - 1) : d <= i /\ Half(i) - Half(i - d) > 1 THEN state' = "lost" /\ UNCHANGED i
       ELSE i' = i + 1 /\ UNCHANGED state
    /\ UNCHANGED q
Next == Read
Spec == Init /\ [][Next]_vars
Sound == Ok(q) => state \in {"read", "done"}
\* times of different or insufficient number are refused at once, even if the surplus is never looked at
Tight == state = "done" => Ok(q) \/ q.n = C + 1 \/ q.n > C \/ q.l1 # q.l2 \/ (q.l1 # -1 /\ q.l1 < q.count)
=============================================================================
