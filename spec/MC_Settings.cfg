CONSTANTS
  Chunks = 20
  DefaultsDirs = 3
  Picked = 1
INIT Init
NEXT Next
VIEW MCView
INVARIANT Consulted
INVARIANT OutcomeShape
CHECK_DEADLOCK FALSE
