SPECIFICATION Spec
CONSTANTS MaxArrays = 4
 MaxBlocks = 4
 MaxCalls = 3
 Workspace = FALSE
INVARIANT Kept
PROPERTY InputsKept
CHECK_DEADLOCK FALSE
