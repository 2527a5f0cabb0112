CONSTANT
  Levels = 2
INIT Init
NEXT Next
VIEW MCView
INVARIANT Hidden
INVARIANT Selected
INVARIANT OutcomeShape
CHECK_DEADLOCK FALSE
