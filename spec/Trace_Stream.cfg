INIT BulkInit
NEXT BulkNext
INVARIANT InvWide
CHECK_DEADLOCK FALSE
