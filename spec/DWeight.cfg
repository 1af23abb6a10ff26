SPECIFICATION Spec
CONSTANT Blind = FALSE
INVARIANT Published
INVARIANT Best
CHECK_DEADLOCK FALSE
