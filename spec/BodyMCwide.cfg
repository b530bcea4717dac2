SPECIFICATION Spec
CONSTANTS Length = 2 Wide = TRUE
CONSTANT HostActions = {".rec"}
CONSTANT PlanOf <- NoText
CONSTANT EventOf <- NoText
INVARIANTS Agrees Shown
CHECK_DEADLOCK FALSE
