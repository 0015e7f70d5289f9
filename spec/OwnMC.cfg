INIT Init
NEXT Next
CONSTANTS Senders = {"a", "b"} PerSender = 3 Cap = 2
INVARIANT Once
INVARIANT NoUseAfterFree
INVARIANT NothingLost
INVARIANT AllBack
CHECK_DEADLOCK FALSE
