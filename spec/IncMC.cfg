SPECIFICATION Spec
CONSTANT Max = 2
INVARIANT Meant
CHECK_DEADLOCK FALSE
