SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Stages = 2
INVARIANTS Alone Unchanged Whole Once Right Watched
PROPERTY Terminates
CHECK_DEADLOCK TRUE
