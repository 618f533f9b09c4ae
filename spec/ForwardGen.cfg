SPECIFICATION GSpec
CONSTANTS
  N = 6
  MaxArgs = 3
  Leaves <- BothLeaves
  Builders = {1, 2}
  Limit = 2
INVARIANTS ReadsComplete OnlyOnce WithinLimit
CHECK_DEADLOCK FALSE
