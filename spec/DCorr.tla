-------------------------------- MODULE DCorr --------------------------------
(***************************************************************************)
(* Design model of the linear correlator: two cameras deliver frames in    *)
(* any interleaving at any (distinct per camera) integer times; the        *)
(* correlator files every new pair under its delay as soon as the second   *)
(* frame of the pair has arrived.  Data are symbolic: the accumulator of a *)
(* delay is the bag of index pairs it holds, so an invariant that holds    *)
(* here holds for every value of the data.                                 *)
(***************************************************************************)
EXTENDS Corr

CONSTANTS MaxT,      \* times are 0..MaxT
          MaxFrames, \* frames per camera
          N          \* number of delays asked for

VARIABLES t1, t2,    \* times of the frames received so far
          real,      \* real[k]  : bag (here: function pair -> multiplicity) of element k
          cplx       \* cplx[k]
vars == <<t1, t2, real, cplx>>

NoBag == [x \in {} |-> 0]
AddTo(bag, x) == [y \in DOMAIN bag \cup {x} |-> (IF y \in DOMAIN bag THEN bag[y] ELSE 0) + IF y = x THEN 1 ELSE 0]

Init == /\ t1 = <<>> /\ t2 = <<>>
        /\ real = [k \in 1..N |-> NoBag]
        /\ cplx = [k \in 1..(2*N-1) |-> NoBag]

\* index (1-based) of the element of a complex result that stands for delay m
CplxIndex(m) == IF m >= 0 THEN m + 1 ELSE 2 * N + m

RECURSIVE FilePairs(_, _, _)
FilePairs(S, r, c) ==   \* file the pairs of S (with their delay) in the two accumulators
    IF S = {} THEN <<r, c>>
    ELSE LET x == CHOOSE x \in S : TRUE
             m == x[2]
         IN IF Abs(m) >= N THEN FilePairs(S \ {x}, r, c)
            ELSE FilePairs(S \ {x}, [r EXCEPT ![Abs(m) + 1] = AddTo(@, x[1])],
                                    [c EXCEPT ![CplxIndex(m)] = AddTo(@, x[1])])

Frame1(t) == /\ Len(t1) < MaxFrames /\ t \notin Range1(t1)
             /\ t1' = Append(t1, t) /\ t2' = t2
             /\ LET i == Len(t1) + 1
                    f == FilePairs({ <<<<i, j>>, t2[j] - t>> : j \in DOMAIN t2 }, real, cplx)
                IN real' = f[1] /\ cplx' = f[2]
Frame2(t) == /\ Len(t2) < MaxFrames /\ t \notin Range1(t2)
             /\ t2' = Append(t2, t) /\ t1' = t1
             /\ LET j == Len(t2) + 1
                    f == FilePairs({ <<<<i, j>>, t - t1[i]>> : i \in DOMAIN t1 }, real, cplx)
                IN real' = f[1] /\ cplx' = f[2]

Next == \E t \in 0..MaxT : Frame1(t) \/ Frame2(t)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
BagOf(S) == [x \in S |-> 1]
\* The accumulators hold what the definition says, each pair once, after every frame.
RealIsDefinition == real = [k \in 1..N |-> BagOf(BinsReal(t1, t2, N)[k])]
CplxIsDefinition == cplx = [k \in 1..(2*N-1) |-> BagOf(BinsCplx(t1, t2, N)[k])]
\* A pair is never lost and never counted twice.
EachPairOnce ==
    \A i \in DOMAIN t1, j \in DOMAIN t2 :
        Cardinality({ k \in 1..N : <<i, j>> \in DOMAIN real[k] }) =
            (IF Abs(t2[j] - t1[i]) < N THEN 1 ELSE 0)
\* real = complex folded
FoldedReal == \A k \in 1..N : DOMAIN real[k] =
    DOMAIN cplx[k] \cup (IF k = 1 THEN {} ELSE DOMAIN cplx[2 * N + 1 - k])
\* exchanging the cameras reverses the delay axis
Swapped ==
    LET b == BinsCplx(t2, t1, N) IN
    \A k \in 1..(2*N-1) : { <<q[2], q[1]>> : q \in b[k] } =
        DOMAIN cplx[IF k = 1 THEN 1 ELSE 2 * N + 1 - k]
\* only time differences matter
Shifted ==
    LET s(t) == [i \in DOMAIN t |-> t[i] + 3] IN BinsCplx(s(t1), s(t2), N) = BinsCplx(t1, t2, N)
\* with all delays asked for, no pair is outside
FullCoversAll ==
    (t1 # <<>> /\ t2 # <<>>) =>
        LET n == FullLenCross(t1, t2)
            b == BinsCplx(t1, t2, n)
        IN UNION { b[k] : k \in DOMAIN b } = (DOMAIN t1) \X (DOMAIN t2)
\* one sequence: together with the mirrored pairs and without the doubled zero delay
AutoIsHalf ==
    (t1 # <<>>) =>
        LET a == BinsAuto(t1, N)  x == BinsReal(t1, t1, N) IN
        \A k \in 1..N : x[k] = a[k] \cup { <<q[2], q[1]>> : q \in a[k] }
=============================================================================
