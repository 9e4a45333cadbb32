INIT BulkInit
NEXT BulkNext
INVARIANT InvWStreamed
CHECK_DEADLOCK FALSE
