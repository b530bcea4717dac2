SPECIFICATION Spec
CONSTANT HostActions = {".rec"}
CONSTRAINT DebugTrack
POSTCONDITION Report
CHECK_DEADLOCK FALSE
