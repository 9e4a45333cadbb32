INIT BulkInit
NEXT BulkNext
INVARIANT InvSessions
CHECK_DEADLOCK FALSE
