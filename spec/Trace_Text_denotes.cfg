INIT BulkInit
NEXT BulkNext
INVARIANT InvDenotes
CHECK_DEADLOCK FALSE
