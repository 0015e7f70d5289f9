SPECIFICATION Spec
CONSTANTS P = 3  E = 2
INVARIANTS NoUseAfterEnd NoSleep OnlyAsked
PROPERTY Ends
CHECK_DEADLOCK FALSE
