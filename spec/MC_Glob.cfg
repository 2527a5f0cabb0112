INIT Init
NEXT Next
VIEW MCView
CHECK_DEADLOCK FALSE
INVARIANT InOrderOfText
INVARIANT OutcomeShape
