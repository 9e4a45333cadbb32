INIT Init
NEXT Next
INVARIANT Independent
INVARIANT Emitted
CHECK_DEADLOCK FALSE
