SPECIFICATION Spec
CONSTANT MaxT = 4
CONSTANT MaxFrames = 3
CONSTANT N = 3
INVARIANT RealIsDefinition
INVARIANT CplxIsDefinition
INVARIANT EachPairOnce
INVARIANT FoldedReal
INVARIANT Swapped
INVARIANT Shifted
INVARIANT FullCoversAll
INVARIANT AutoIsHalf
CHECK_DEADLOCK FALSE
