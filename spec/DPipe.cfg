SPECIFICATION Spec
CONSTANTS N = 8
 Q = 3
 Reuse = FALSE
INVARIANT Kept
INVARIANT Source
PROPERTY Finished
CHECK_DEADLOCK FALSE
