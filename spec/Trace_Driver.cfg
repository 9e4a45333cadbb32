INIT BulkInit
NEXT BulkNext
INVARIANT InvFollows
CHECK_DEADLOCK FALSE
