CONSTANT
  Threads = {1, 2, 3}
  Contents = {1}
  MaxCalls = 2
  MaxReads = 3
INIT Init
NEXT Next
VIEW View
INVARIANT Show
INVARIANT NeverStuck
CHECK_DEADLOCK FALSE
