SPECIFICATION Spec
CONSTANT Vals = {0, 3}
CONSTANT Bgs = {0, 2}
CONSTANT MaxPairs = 2
INVARIANT Standard
INVARIANT Subtracted
INVARIANT Compensated
INVARIANT Structured
INVARIANT Structured0
INVARIANT StructComp
INVARIANT DiffIsStruct
INVARIANT ShiftFree
INVARIANT Identical
INVARIANT Blends
CHECK_DEADLOCK FALSE
