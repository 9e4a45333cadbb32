INIT BulkInit
NEXT BulkNext
INVARIANT InvWritten
CHECK_DEADLOCK FALSE
