CONSTANT
  MaxSlots = 3
  PoolSize = 9
INIT Init
NEXT Next
VIEW MCView
INVARIANT Merged
INVARIANT Unaltered
INVARIANT OutcomeShape
CHECK_DEADLOCK FALSE
