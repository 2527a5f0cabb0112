CONSTANTS
  Threads = {1, 2, 3}
  Exes = {1, 2}
  MaxCalls = 1
SPECIFICATION Spec
INVARIANT OnePerExe
INVARIANT Owned
INVARIANT NothingLeft
INVARIANT Delivered
INVARIANT Reason
PROPERTY Terminates
CHECK_DEADLOCK FALSE
