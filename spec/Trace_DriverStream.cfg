INIT BulkInit
NEXT BulkNext
INVARIANT InvStreamed
CHECK_DEADLOCK FALSE
