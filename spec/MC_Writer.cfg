INIT Init
NEXT Next
INVARIANT Rules
INVARIANT NothingLeft
INVARIANT AsExpected
INVARIANT AllAsked
INVARIANT EndOnce
CHECK_DEADLOCK FALSE
