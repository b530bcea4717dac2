SPECIFICATION Spec
CONSTANT HostActions = {".rec"}
CONSTANT PlanOf <- NoText
CONSTANT EventOf <- NoText
VIEW View
INVARIANTS Defined Facts Going
INVARIANT Finals
PROPERTY Obeys
POSTCONDITION AsWanted
CHECK_DEADLOCK FALSE
