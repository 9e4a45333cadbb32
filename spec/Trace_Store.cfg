INIT BulkInit
NEXT BulkNext
INVARIANT InvConforms
CHECK_DEADLOCK FALSE
