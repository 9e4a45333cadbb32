INIT BulkInit
NEXT BulkNext
INVARIANT InvMeasured
CHECK_DEADLOCK FALSE
