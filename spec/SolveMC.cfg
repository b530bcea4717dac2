SPECIFICATION Spec
CONSTANTS Deep = FALSE HostActions = {}
INVARIANT Agrees
CHECK_DEADLOCK FALSE
