CONSTANT
  Rich = FALSE
INIT Init
NEXT Next
VIEW MCView
INVARIANT Confined
INVARIANT OutcomeShape
CHECK_DEADLOCK FALSE
