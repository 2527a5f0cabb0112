CONSTANT
  MaxPieces = 2
INIT Init
NEXT Next
VIEW MCView
INVARIANT Composed
INVARIANT OutcomeShape
CHECK_DEADLOCK FALSE
