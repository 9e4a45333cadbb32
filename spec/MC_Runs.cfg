INIT RunsInit
NEXT RunsNext
INVARIANTS RunStepIsExact
CHECK_DEADLOCK FALSE
