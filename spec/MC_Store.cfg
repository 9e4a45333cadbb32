INIT MInit
NEXT MNext
VIEW Contents
INVARIANT Sane
CHECK_DEADLOCK FALSE
