CONSTANT
  MaxSlots = 3
INIT Init
NEXT Next
VIEW MCView
INVARIANT FirstFound
INVARIANT NotFound
INVARIANT OutcomeShape
CHECK_DEADLOCK FALSE
