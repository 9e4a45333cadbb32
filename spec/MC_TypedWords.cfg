INIT TWInit
NEXT TWNext
INVARIANTS NestingAgrees TakenIsDone Transparent DrainedIsExact Conforms
PROPERTY RejectionIsFinal
CHECK_DEADLOCK FALSE
