INIT Init
NEXT Next
VIEW MCView
CHECK_DEADLOCK FALSE
CONSTANT
  Rich = FALSE
INVARIANT Starts
INVARIANT NeverInClear
INVARIANT VerifiedOnly
INVARIANT OthersServed
INVARIANT TrustedServed
