CONSTANT
  Rich = FALSE
INIT Init
NEXT Next
VIEW MCView
INVARIANT Respond
INVARIANT Asked
INVARIANT OneProcess
INVARIANT OutcomeShape
CHECK_DEADLOCK FALSE
