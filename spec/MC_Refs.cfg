CONSTANTS
  NKeys = 2
  KeyPairs = 1
  VarPairs = FALSE
INIT Init
NEXT Next
VIEW MCView
INVARIANT Terminates
INVARIANT OutcomeShape
CHECK_DEADLOCK FALSE
