SPECIFICATION Spec
CONSTANT Verdict <- JudgeRow
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
