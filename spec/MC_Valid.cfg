CONSTANT
  Full = FALSE
INIT Init
NEXT Next
VIEW MCView
INVARIANT Verdict
INVARIANT DataOutcome
INVARIANT OutcomeShape
CHECK_DEADLOCK FALSE
