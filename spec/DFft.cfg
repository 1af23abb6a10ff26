SPECIFICATION Spec
CONSTANT Vals = {0, 1, 3}
CONSTANT MaxSize = 9
INVARIANT Inverse
INVARIANT Hermitian
INVARIANT OneWave
INVARIANT Crops
CHECK_DEADLOCK FALSE
