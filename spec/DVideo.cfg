SPECIFICATION Spec
CONSTANT Stages = 4
CONSTANT Zip = {2, 3}
CONSTANT MaxLen = 3
INVARIANT Aligned
INVARIANT NoLookahead
INVARIANT Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
