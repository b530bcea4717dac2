SPECIFICATION Spec
CONSTANT Max = 5
CONSTANT Alphabet = {"a", "X", "_", "1", ".", "e", "-", "*", "/", "=", "\"", "~", " ", "\n"}
INVARIANTS Where Alone Layout
CHECK_DEADLOCK FALSE
