SPECIFICATION Spec
CONSTANT K = {0, 1}
CONSTANT A = {0, 1}
CONSTANT Norms = {1, 2, 3, 5, 6, 7, 9, 10, 11}
CONSTANT Stale = FALSE
CONSTANT Video = TRUE
INVARIANT Asked
INVARIANT InStep
INVARIANT Iterated
PROPERTY Forward
CHECK_DEADLOCK FALSE
