INIT BulkInit
NEXT BulkNext
INVARIANT InvWFollows
CHECK_DEADLOCK FALSE
