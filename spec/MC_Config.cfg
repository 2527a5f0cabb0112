CONSTANT
  Threads = {t1, t2, t3}
  Contents = {1, 2, 90, 91}
  MaxCalls = 2
SPECIFICATION Spec
INVARIANT OneLoader
INVARIANT LoadedOnce
INVARIANT SameConfig
INVARIANT OwnFailure
INVARIANT Delivered
PROPERTY Settled
PROPERTY Terminates
CHECK_DEADLOCK FALSE
