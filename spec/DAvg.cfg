SPECIFICATION Spec
CONSTANT MaxN = 22
CONSTANT Sizes = {2, 4, 6, 8}
INVARIANT Mean1
INVARIANT Positive
INVARIANT Centred
INVARIANT Triangle
INVARIANT Levels
INVARIANT TimesOK
INVARIANT PosOK
CHECK_DEADLOCK FALSE
