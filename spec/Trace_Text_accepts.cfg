INIT BulkInit
NEXT BulkNext
INVARIANT InvAccepts
CHECK_DEADLOCK FALSE
