SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Calls = 2
  MaxDraw = 2
INVARIANTS Handed
PROPERTY Terminates
CHECK_DEADLOCK TRUE
