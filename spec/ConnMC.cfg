SPECIFICATION Spec
CONSTANTS T = 2  N = 2  K = 2  PeerEnds = FALSE  Shut = TRUE
INVARIANTS Stream Prefix Whole PerSender OnceClosed NoTouch NoIdleData NothingLost DrainedEnd
CHECK_DEADLOCK FALSE
