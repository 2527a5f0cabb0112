INIT Init
NEXT Next
VIEW MCView
CHECK_DEADLOCK FALSE
CONSTANT
  Rich = FALSE
INVARIANT Faithful
INVARIANT OutcomeShape
