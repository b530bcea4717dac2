SPECIFICATION Spec
CONSTANTS Max = 4 Depth = 2
INVARIANTS Resolves Stable Unique
CHECK_DEADLOCK FALSE
