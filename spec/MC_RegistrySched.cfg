CONSTANT
  Threads = {1, 2, 3}
  Exes = {1, 2}
  MaxCalls = 2
  MaxStarts = 2
INIT Init
NEXT Next
VIEW View
INVARIANT Show
INVARIANT NeverStuck
CHECK_DEADLOCK FALSE
