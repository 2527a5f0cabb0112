CONSTANTS
  MaxOps = 4
  Wide = FALSE
INIT Init
NEXT Next
VIEW MCView
INVARIANT Snapshots
INVARIANT OutcomeShape
PROPERTY ConfigOnce
CHECK_DEADLOCK FALSE
