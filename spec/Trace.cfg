INIT TInit
NEXT TNext
INVARIANT WellNested
INVARIANT OutcomeShape
VIEW TView
CHECK_DEADLOCK FALSE
