CONSTANTS
  Sections = 5
INIT Init
NEXT Next
VIEW MCView
INVARIANT Consulted
INVARIANT OutcomeShape
CHECK_DEADLOCK FALSE
