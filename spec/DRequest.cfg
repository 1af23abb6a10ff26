SPECIFICATION Spec
CONSTANTS Max = 7
 Trusting = FALSE
INVARIANT Sound
INVARIANT Tight
CHECK_DEADLOCK FALSE
