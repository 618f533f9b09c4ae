SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxArgs = 2
  Leaves = {0}
  Builders = {1}
  Limit = 2
INVARIANTS ReadsComplete OnlyOnce WithinLimit
PROPERTY Terminates
CHECK_DEADLOCK TRUE
