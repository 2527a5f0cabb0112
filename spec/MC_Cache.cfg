CONSTANT
  MaxOps = 3
INIT Init
NEXT Next
VIEW MCView
INVARIANT LastWins
INVARIANT OutcomeShape
CHECK_DEADLOCK FALSE
