SPECIFICATION Spec
CONSTANTS T = 1  N = 2  K = 2  PeerEnds = TRUE  Shut = TRUE
INVARIANTS Stream Prefix Whole PerSender OnceClosed NoTouch NoIdleData NothingLost DrainedEnd
PROPERTY Finishes
CHECK_DEADLOCK FALSE
