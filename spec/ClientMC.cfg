SPECIFICATION Spec
CONSTANTS NA = 3  NS = 2
INVARIANTS OneDescriptor TimerAlone ReportedOnce OneConnection InOrder CacheFirst NothingLeft
PROPERTY Answered
CHECK_DEADLOCK FALSE
