SPECIFICATION Spec
CONSTANT Step = 1
INVARIANTS Doubled Pythagoras Known Ends Middle Exponent
CHECK_DEADLOCK FALSE
