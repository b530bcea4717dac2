SPECIFICATION Spec
CONSTANT Verdict <- JudgeRow
CONSTANT HostActions = {".rec"}
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
