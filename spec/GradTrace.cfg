SPECIFICATION TSpec
CONSTANTS
  Procs = {1}
  Len0 = 1
VIEW View
CONSTRAINT Accepted
CHECK_DEADLOCK FALSE
