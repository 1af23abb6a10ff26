-------------------------------- MODULE DHeap --------------------------------
(***************************************************************************)
(* Histories of calls over shared arrays.  Design questions: a result      *)
(* stays what it was until it is given as an output or changed in place    *)
(* through a view of it; sharing arises only through views and outputs.    *)
(* Workspace = TRUE: calls keep their result in a block of their own and   *)
(* use it again (a cache), which Kept must reject.                         *)
(***************************************************************************)
EXTENDS Heap
CONSTANTS MaxArrays, MaxBlocks, MaxCalls, Workspace
VARIABLES home, ver, seen, calls, cache, last
vars == <<home, ver, seen, calls, cache, last>>
\* home: array -> block; ver: block -> number of writes; seen: array -> version when it was made or last written through
Arrays == DOMAIN home
NewBlock == Cardinality(DOMAIN ver) + 1
Init == /\ home = [a \in 1..2 |-> a] /\ ver = [b \in 1..2 |-> 0] /\ seen = [a \in 1..2 |-> 0]
        /\ calls = 0 /\ cache = 0 /\ last = {}
Bump(bs) == [b \in DOMAIN ver |-> IF b \in bs THEN ver[b] + 1 ELSE ver[b]]
\* the owner of the program knows what the call may write; he looks again at those arrays
Look(v, ch) == [a \in Arrays |-> IF a \in ch THEN v[home[a]] ELSE seen[a]]
Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Call ==
    \E kind \in Kinds, ins \in SUBSET Arrays, outs \in SUBSET Arrays :
        /\ ins # {} /\ Cardinality(ins) <= 2 /\ Cardinality(outs) <= 1
        /\ calls < MaxCalls /\ calls' = calls + 1
        /\ LET ch == MayChange(home, kind, ins, outs)
               wr == Blocks(home, Writable(kind, ins, outs))
           IN /\ last' = wr
              /\ \/ \* result in existing memory
                    /\ kind # "refused" /\ Cardinality(Arrays) < MaxArrays
                    /\ \E b \in MayHold(home, kind, ins, outs) :
                         LET v == Bump(wr) IN
                         /\ ver' = v /\ home' = Put(home, Cardinality(Arrays) + 1, b)
                         /\ seen' = Put(Look(v, ch), Cardinality(Arrays) + 1, v[b])
                    /\ UNCHANGED cache
                 \/ \* result in new memory
                    /\ kind \in {"compute", "view"} /\ outs = {} /\ ~Workspace
                    /\ Cardinality(Arrays) < MaxArrays /\ Cardinality(DOMAIN ver) < MaxBlocks
                    /\ ver' = Put(Bump(wr), NewBlock, 0) /\ home' = Put(home, Cardinality(Arrays) + 1, NewBlock)
                    /\ seen' = Put(Look(Bump(wr), ch), Cardinality(Arrays) + 1, 0)
                    /\ UNCHANGED cache
                 \/ \* the same, in the workspace of an earlier call
                    /\ Workspace /\ kind = "compute" /\ outs = {}
                    /\ Cardinality(Arrays) < MaxArrays
                    /\ IF cache = 0
                       THEN /\ ver' = Put(ver, NewBlock, 0) /\ cache' = NewBlock
                            /\ home' = Put(home, Cardinality(Arrays) + 1, NewBlock)
                            /\ seen' = Put(seen, Cardinality(Arrays) + 1, 0)
                       ELSE /\ ver' = Bump({cache}) /\ UNCHANGED cache
                            /\ home' = Put(home, Cardinality(Arrays) + 1, cache)
                            /\ seen' = Put(seen, Cardinality(Arrays) + 1, ver[cache] + 1)
                 \/ \* nothing returned
                    /\ ver' = Bump(wr) /\ seen' = Look(Bump(wr), ch) /\ UNCHANGED <<home, cache>>
Next == Call
Spec == Init /\ [][Next]_vars
\* every array is what its owner believes it to be
Kept == \A a \in Arrays : seen[a] = ver[home[a]]
\* an input of a computation is untouched
InputsKept == [][\A a \in Arrays : home[a] \notin last' => ver'[home[a]] = ver[home[a]]]_vars
=============================================================================
