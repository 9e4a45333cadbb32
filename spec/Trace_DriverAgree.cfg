INIT BulkInit
NEXT BulkNext
INVARIANT InvAgree
CHECK_DEADLOCK FALSE
