SPECIFICATION Spec
CONSTANT MaxArgs = 2
INVARIANT Conserved
INVARIANT Ordered
INVARIANT Quiet
INVARIANT NoHyphenArgs
INVARIANT NoHyphenFiles
INVARIANT Spelled
INVARIANT Done
PROPERTY Ends
CHECK_DEADLOCK FALSE
