SPECIFICATION Spec
CONSTANT Max = 3
INVARIANT Meant
CHECK_DEADLOCK FALSE
