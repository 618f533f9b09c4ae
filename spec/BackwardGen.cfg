SPECIFICATION GSpec
CONSTANTS
  N = 5
  MaxArgs = 3
  Leaves <- BothLeaves
  MaxCalls = 2
INVARIANTS OnlyOnComplete AtMostOnce AfterDependents CountersSound
CHECK_DEADLOCK FALSE
