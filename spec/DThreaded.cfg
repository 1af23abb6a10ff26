SPECIFICATION Spec
CONSTANT MaxN = 4
CONSTANT MaxQ = 3
CONSTANT MaxV = 2
CONSTANT NoMark = FALSE
INVARIANT InOrder
INVARIANT Lookahead
INVARIANT ShownInOrder
INVARIANT AllShown
INVARIANT NoneShown
INVARIANT Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
