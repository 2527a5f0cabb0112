INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANT
  Threads = {1, 2, 3, 4}
  Contents = {1}
