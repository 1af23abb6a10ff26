SPECIFICATION Spec
CONSTANT Halfs = {1,2,3,4}
CONSTANT MaxCount = 25
CONSTANT MaxLevel = 3
CONSTANT BreakRing = FALSE
INVARIANT StreamIsDefinition
INVARIANT FinalIsInMemory
INVARIANT LevelsFit
INVARIANT FramesMaximal
PROPERTY Terminates
CHECK_DEADLOCK FALSE
