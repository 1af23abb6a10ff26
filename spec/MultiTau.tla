------------------------------ MODULE MultiTau ------------------------------
(***************************************************************************)
(* The multiple-tau correlator.                                            *)
(*                                                                         *)
(* Level 0 ("fast") correlates the frames themselves.  Level j >= 1 (a     *)
(* "slow" level) correlates the sequence obtained by combining every two   *)
(* items of level j-1 into one; its items are regularly spaced and its     *)
(* delays are measured in items of that level.                             *)
(*                                                                         *)
(* The streaming version receives the frames one by one, in half-chunks of *)
(* `half` items, and correlates the items of a half-chunk with each other  *)
(* and (mode "full") with those of the previous half-chunk of that level.  *)
(***************************************************************************)
EXTENDS Corr

BFIRST == 0
BMEAN  == 1
BCHOOSE == 2

\* Combine every two items.  The first-item rule keeps a last unpaired item.
BinSeq(v, binning) ==
    IF binning = BMEAN THEN [i \in 1..(Len(v) \div 2) |-> (v[2*i-1] + v[2*i]) \div 2]
    ELSE [i \in 1..((Len(v) + 1) \div 2) |-> v[2*i-1]]
\* one random choice for a whole level (in-memory BINNING_CHOOSE): first or second item of each pair
BinChoose(v, second) == [i \in 1..(Len(v) \div 2) |-> v[2*i-1 + second]]

RECURSIVE LevelSeq(_, _, _)
LevelSeq(v, binning, j) == IF j = 0 THEN v ELSE BinSeq(LevelSeq(v, binning, j - 1), binning)

\* ---- what is processed
RECURSIVE CountWhile(_, _)          \* number of k = 0,1,2,.. with a \div 2^k >= b
CountWhile(a, b) == IF a < b THEN 0 ELSE 1 + CountWhile(a \div 2, b)

\* number of levels kept in ring buffers
Decades(count, half) == CountWhile(count \div (2 * half), 1)
\* number of frames processed: the largest half * 2^k that fits
FramesUsed(count, half) ==
    LET d == Decades(count, half) IN IF d = 0 THEN half ELSE Pow2(d) * half
\* number of slow levels
DecadesMax(frames, level_size) == CountWhile(frames, level_size)
NLevels(frames, level_size, asked) ==
    IF asked < 0 THEN DecadesMax(frames, level_size) - 1
    ELSE Min(asked, DecadesMax(frames, level_size) - 1)
\* levels 1 .. StreamLevels-1 are computed while streaming, the rest at the end
StreamLevels(count, half, level_size, asked) ==
    LET d == Decades(count, half)
        frames == FramesUsed(count, half)
    IN Max(1, IF asked < 0 THEN d ELSE Min(Min(asked + 1, DecadesMax(frames, level_size)), d))

\* ---- the pairs of items a half-chunk c (1-based) contributes at some level
ChunkItems(c, half) == ((c - 1) * half + 1)..(c * half)
NewPairs(c, half, full) ==
    LET new == ChunkItems(c, half)
        old == IF full /\ c > 1 THEN ChunkItems(c - 1, half) ELSE {}
    IN (new \X new) \cup (new \X old) \cup (old \X new)

\* file a set of index pairs under their delay
FileReal(S, t1, t2, n) ==
    TLCEval([k \in 1..n |-> { q \in S : Abs(t2[q[2]] - t1[q[1]]) = k - 1 }])
FileCplx(S, t1, t2, n) ==
    TLCEval([k \in 1..(2*n-1) |-> { q \in S : t2[q[2]] - t1[q[1]] = CplxDelay(k, n) }])
FileAuto(S, t, n) ==
    TLCEval([k \in 1..n |-> { q \in S : t[q[2]] - t[q[1]] = k - 1 }])
File(S, t1, t2, n, auto, cplx) ==
    IF auto THEN FileAuto(S, t1, n) ELSE IF cplx THEN FileCplx(S, t1, t2, n) ELSE FileReal(S, t1, t2, n)
\* the same for m items at equal steps, without looking at every pair (equal by ASSUME in DMulti)
Diagonal(m, d) == { <<i, i + d>> : i \in (IF d < 0 THEN 1 - d ELSE 1)..(IF d < 0 THEN m ELSE m - d) }
FileEqual(S, m, n, auto, cplx) ==
    LET Of(d) == { q \in Diagonal(m, d) : q \in S } IN
    IF auto THEN TLCEval([k \in 1..n |-> Of(k - 1)])
    ELSE IF cplx THEN TLCEval([k \in 1..(2*n-1) |-> Of(CplxDelay(k, n))])
    ELSE TLCEval([k \in 1..n |-> Of(k - 1) \cup Of(1 - k)])
=============================================================================
