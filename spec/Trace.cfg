SPECIFICATION Spec
CONSTANT HostActions = {".rec"}
CONSTANT PlanOf <- TextPlan
CONSTANT EventOf <- TextEvent
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
