SPECIFICATION Spec
CONSTANTS Length = 3 Wide = FALSE
CONSTANT HostActions = {".rec"}
CONSTANT PlanOf <- NoText
CONSTANT EventOf <- NoText
INVARIANTS Agrees Shown
CHECK_DEADLOCK FALSE
