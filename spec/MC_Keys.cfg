CONSTANT
  MaxLen = 4
  MaxSegs = 2
INIT Init
NEXT Next
VIEW MCView
INVARIANT ParsedByGrammar
INVARIANT Dug
INVARIANT OutcomeShape
CHECK_DEADLOCK FALSE
