SPECIFICATION Spec
CONSTANT MaxArgs = 3
INVARIANT Conserved
INVARIANT Ordered
INVARIANT Quiet
INVARIANT NoHyphenArgs
INVARIANT NoHyphenFiles
INVARIANT Spelled
INVARIANT Done
PROPERTY Ends
CHECK_DEADLOCK FALSE
