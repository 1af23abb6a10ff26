SPECIFICATION Spec
CONSTANT MaxT = 5
CONSTANT MaxFrames = 4
CONSTANT Lossy = FALSE
INVARIANT Matched
INVARIANT Complete
CHECK_DEADLOCK FALSE
