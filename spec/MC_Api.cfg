CONSTANT
  Rich = FALSE
INIT Init
NEXT Next
VIEW MCView
INVARIANT Preference
INVARIANT AllPreference
INVARIANT OutcomeShape
CHECK_DEADLOCK FALSE
