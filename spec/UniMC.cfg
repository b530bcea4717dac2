SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Sound Complete MostGeneral Symmetric Defined Undone AnnExact AnnSound
CHECK_DEADLOCK FALSE
