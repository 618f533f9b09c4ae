SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxArgs = 2
  Leaves <- BothLeaves
  MaxCalls = 2
INVARIANTS OnlyOnComplete AtMostOnce AfterDependents AllWhenReturned CountersSound SinglePass
PROPERTY Terminates
CHECK_DEADLOCK TRUE
