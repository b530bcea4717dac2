SPECIFICATION Spec
CONSTANTS Deep = TRUE HostActions = {}
INVARIANT Agrees
CHECK_DEADLOCK FALSE
