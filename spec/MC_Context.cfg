INIT CtxInit
NEXT CtxNext
INVARIANTS ConformsAccepts ConformsRefuses ConformsReturns
CHECK_DEADLOCK FALSE
