CONSTANT
  Slots = 2
INIT Init
NEXT Next
VIEW MCView
INVARIANT Accurate
INVARIANT Transparent
INVARIANT Right
INVARIANT Nested
INVARIANT Silence
INVARIANT OutcomeShape
CHECK_DEADLOCK FALSE
