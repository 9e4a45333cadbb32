INIT MInit
NEXT MNext
INVARIANT Shown Foreign Elsewhere
PROPERTY Final
CHECK_DEADLOCK FALSE
