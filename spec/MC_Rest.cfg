CONSTANTS
  Rich = FALSE
INIT Init
NEXT Next
VIEW MCView
INVARIANT WellNested
INVARIANT OutcomeShape
INVARIANT Statuses
INVARIANT Interpolated
INVARIANT Defaults
INVARIANT Merged
INVARIANT Values2
INVARIANT Current
CHECK_DEADLOCK FALSE
