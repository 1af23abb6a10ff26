------------------------------- MODULE DMulti -------------------------------
(***************************************************************************)
(* Design model of the streaming multiple-tau correlator, structured like  *)
(* the implementation: per level a ring buffer of 2*half items, written by *)
(* the arriving frames, and accumulators that are fed from the ring buffer *)
(* slices of the newest and the previous half-chunk whenever a half-chunk  *)
(* of the level is complete; the levels above the ring buffers are         *)
(* computed from the last ring buffer when the data end.                   *)
(*                                                                         *)
(* Items are symbolic: an item is the set of the source frames it is made  *)
(* of, so the invariants hold for every value of the data.  An accumulator *)
(* is a function  pair of items -> number of times added.                  *)
(***************************************************************************)
EXTENDS MultiTau

\* filing along diagonals = filing every pair by its delay, for all pairs and for those of a chunk
ASSUME \A m \in 1..6, n \in 1..7 : \A auto, cplx \in BOOLEAN :
    \A S \in {(1..m) \X (1..m)} \cup {NewPairs(c, h, full) : c \in 1..(m \div 2), h \in {2}, full \in BOOLEAN} :
        FileEqual(S, m, n, auto, cplx) = File(S, Regular(m), Regular(m), n, auto, cplx)

CONSTANTS Halfs,       \* set of half-chunk sizes
          MaxCount,    \* frames offered
          MaxLevel,    \* explicit nlevel values 0..MaxLevel, and -1 (automatic)
          BreakRing    \* TRUE weakens the model (previous slice taken from the wrong half)

VARIABLES half, lsize, count, asked, full,   \* parameters of the run
          i,        \* frames received
          ring,     \* ring[j][slot]
          acc,      \* acc[j] : pair of items -> multiplicity, j = 0..nlevel
          phase     \* "stream", "done"
vars == <<half, lsize, count, asked, full, i, ring, acc, phase>>
params == <<half, lsize, count, asked, full>>

Frames == FramesUsed(count, half)
SL == StreamLevels(count, half, lsize, asked)
NL == NLevels(Frames, lsize, asked)
RingSize == IF Decades(count, half) = 0 THEN half ELSE 2 * half

NoBag == [x \in {} |-> 0]
AddAll(bag, S) == [x \in DOMAIN bag \cup S |->
    (IF x \in DOMAIN bag THEN bag[x] ELSE 0) + (IF x \in S THEN 1 ELSE 0)]

Init ==
    /\ half \in Halfs /\ lsize \in 1..half
    /\ count \in half..MaxCount
    /\ asked \in -1..MaxLevel
    /\ full \in BOOLEAN
    /\ i = 0
    /\ ring = [j \in 0..(SL - 1) |-> [s \in 0..(RingSize - 1) |-> {}]]
    /\ acc = [j \in 0..NL |-> NoBag]
    /\ phase = "stream"

\* write frame f into the ring buffers: level j gets an item when 2^j frames are complete
RECURSIVE Write(_, _, _, _, _)
Write(r, f, j, item, top) ==       \* item has just been written to r[j-1][top]
    IF j > SL - 1 \/ (f + 1) % Pow2(j) # 0 THEN r
    ELSE LET low == (f \div Pow2(j)) % RingSize
             prev == IF top = 0 THEN RingSize - 1 ELSE top - 1
             new == item \cup r[j-1][prev]
         IN Write([r EXCEPT ![j][low] = new], f, j + 1, new, low)

\* ordered pairs of slots of the ring buffer with |delay| < lsize, as pairs of items
Slice(r, j, c) ==                  \* items of half-chunk c (0-based), in order
    [k \in 1..half |-> r[j][(half * (c % (RingSize \div half)) + k - 1) % RingSize]]
PairsWithin(s) == { <<s[a], s[b]>> : a \in DOMAIN s, b \in DOMAIN s }
KeepDelays(S, j) == { p \in S : Abs(((CHOOSE x \in p[2] : \A y \in p[2] : x <= y) \div Pow2(j))
                                  - ((CHOOSE x \in p[1] : \A y \in p[1] : x <= y) \div Pow2(j))) < lsize }
Between(s, o) == { <<s[a], o[b]>> : a \in DOMAIN s, b \in DOMAIN o } \cup { <<o[b], s[a]>> : a \in DOMAIN s, b \in DOMAIN o }

Complete(f, j) == (f + 1) % (half * Pow2(j)) = 0
RECURSIVE Feed(_, _, _, _)
Feed(a, r, f, j) ==
    IF j > SL - 1 \/ j > NL \/ ~Complete(f, j) THEN a
    ELSE LET c == f \div (half * Pow2(j))
             s == Slice(r, j, c)
             o == Slice(r, j, IF BreakRing THEN c ELSE c + 1)   \* the other half of the ring
             a1 == [a EXCEPT ![j] = AddAll(@, KeepDelays(PairsWithin(s), j))]
             a2 == IF c >= 1 /\ full THEN [a1 EXCEPT ![j] = AddAll(@, KeepDelays(Between(s, o), j))] ELSE a1
         IN Feed(a2, r, f, j + 1)

Frame ==
    /\ phase = "stream" /\ i < Frames
    /\ LET r0 == [ring EXCEPT ![0][i % RingSize] = {i}]
           r == Write(r0, i, 1, {i}, i % RingSize)
       IN ring' = r /\ acc' = Feed(acc, r, i, 0)
    /\ i' = i + 1 /\ UNCHANGED <<params, phase>>

\* the items of the last ring buffer, oldest first
LastItems == [k \in 1..RingSize |-> ring[SL - 1][k - 1]]
RECURSIVE Join(_, _)
Join(v, j) == IF j = 0 THEN v ELSE LET w == Join(v, j - 1) IN [k \in 1..(Len(w) \div 2) |-> w[2*k-1] \cup w[2*k]]
Finish ==
    /\ phase = "stream" /\ i = Frames
    /\ acc' = [j \in 0..NL |->
          IF j < SL THEN acc[j]
          ELSE AddAll(acc[j], KeepDelays(PairsWithin(Join(LastItems, j - (SL - 1))), j))]
    /\ phase' = "done" /\ UNCHANGED <<params, i, ring>>

Next == Frame \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------
Item(j, k) == (k * Pow2(j))..((k + 1) * Pow2(j) - 1)       \* 0-based item k of level j
\* definition: number of items of level j in complete half-chunks after i frames
DoneItems(j) == (i \div (half * Pow2(j))) * half
Wanted(j, m, sameChunk) ==
    { <<Item(j, a), Item(j, b)>> : <<a, b>> \in { q \in (0..(m-1)) \X (0..(m-1)) :
          Abs(q[2] - q[1]) < lsize /\ (sameChunk => q[1] \div half = q[2] \div half) } }
OnceEach(S) == [x \in S |-> 1]

\* while streaming, after every frame: exactly the pairs of complete half-chunks, each once.
StreamIsDefinition ==
    \A j \in 0..Min(SL - 1, NL) : acc[j] = OnceEach(Wanted(j, DoneItems(j), ~full))
\* in the end: exactly what the in-memory version has (all pairs of all items), each once.
FinalIsInMemory ==
    phase = "done" /\ full => \A j \in 0..NL : acc[j] = OnceEach(Wanted(j, Frames \div Pow2(j), FALSE))
\* the level structure
LevelsFit == \A j \in 0..NL : Frames \div Pow2(j) >= lsize
FramesMaximal == Frames <= count /\ (Frames * 2 > count)
Terminates == <>(phase = "done")
=============================================================================
