SPECIFICATION Spec
CONSTANTS NFrames = 4
 Careless = FALSE
INVARIANT Seen
INVARIANT Whole
INVARIANT Inside
INVARIANT Steps
PROPERTY LevelKept
PROPERTY Ended
CHECK_DEADLOCK FALSE
