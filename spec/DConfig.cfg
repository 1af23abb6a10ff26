SPECIFICATION Spec
CONSTANT MaxDepth = 3
CONSTANT Leaky = FALSE
INVARIANT TypeOK
INVARIANT Silent
INVARIANT Restored
PROPERTY Brackets
PROPERTY RefusedKeeps
CHECK_DEADLOCK FALSE
