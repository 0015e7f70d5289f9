SPECIFICATION Spec
CONSTANTS MaxEnd = 7 MaxBytes = 9
INVARIANTS Refines Indices
CHECK_DEADLOCK FALSE
