SPECIFICATION Spec
CONSTANTS Max = 4 Depth = 3
INVARIANTS Resolves Stable Unique
CHECK_DEADLOCK FALSE
