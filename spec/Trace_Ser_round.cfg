INIT BulkInit
NEXT BulkNext
INVARIANT InvRoundTrips
CHECK_DEADLOCK FALSE
