CONSTANT
  MaxOps = 3
  Slow = FALSE
INIT Init
NEXT Next
VIEW MCView
INVARIANT LifeDecides
INVARIANT NoneLeft
INVARIANT OnePerExecutable
INVARIANT OutcomeShape
CHECK_DEADLOCK FALSE
