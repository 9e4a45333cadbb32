INIT Init
NEXT Next
INVARIANT Short
INVARIANT Balance
INVARIANT OnHeap
INVARIANT NoStop
CHECK_DEADLOCK FALSE
