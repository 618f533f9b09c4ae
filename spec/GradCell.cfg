SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Len0 = 2
INVARIANTS Atomic Results
PROPERTY Terminates
CHECK_DEADLOCK TRUE
