SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Sound Complete MostGeneral Symmetric Defined Undone AnnExact AnnSound
CHECK_DEADLOCK FALSE
