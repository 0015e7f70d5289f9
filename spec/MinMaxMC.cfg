SPECIFICATION Spec
CONSTANTS T = 3  Vals <- VS  N = 1  Lo <- LoV  Hi = 9
INVARIANTS Covers Real Exact
PROPERTY Monotone
CHECK_DEADLOCK FALSE
