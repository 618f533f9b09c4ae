SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxArgs = 2
  Leaves = {0}
  Builders = {1, 2}
  Limit = 1
INVARIANTS ReadsComplete OnlyOnce WithinLimit
PROPERTY Terminates
CHECK_DEADLOCK TRUE
