INIT Init
NEXT Next
INVARIANT Rules
INVARIANT NothingLeft
INVARIANT OnceEach
INVARIANT AsExpected
INVARIANT FinishedOnlyIfClosed
INVARIANT OkMeansWellFormed
CHECK_DEADLOCK FALSE
