SPECIFICATION Spec
CONSTANT MaxSize = 5
CONSTANT Dirs <- DirSet
CONSTANT Steps <- StepSet
INVARIANT SymHermitian
INVARIANT HalfFull
INVARIANT Cover
INVARIANT Opposite
INVARIANT Ringed
INVARIANT Complement
INVARIANT HalfAverage
CHECK_DEADLOCK FALSE
