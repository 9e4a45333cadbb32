INIT BulkInit
NEXT BulkNext
INVARIANT InvWAgree
CHECK_DEADLOCK FALSE
