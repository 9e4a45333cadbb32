INIT BulkInit
NEXT BulkNext
INVARIANT InvSame
CHECK_DEADLOCK FALSE
