CONSTANT
  Rich = FALSE
INIT Init
NEXT Next
VIEW MCView
INVARIANT Exact
INVARIANT Undisclosed
INVARIANT EndsWithLookup
INVARIANT WellNested
INVARIANT OutcomeShape
CHECK_DEADLOCK FALSE
