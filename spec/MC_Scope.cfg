CONSTANTS
  Broken = {FALSE}
INIT Init
NEXT Next
VIEW MCView
INVARIANT Sees
INVARIANT OutcomeShape
CHECK_DEADLOCK FALSE
