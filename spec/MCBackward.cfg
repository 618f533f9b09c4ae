SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxArgs = 2
  Leaves = {0}
  MaxCalls = 1
INVARIANTS OnlyOnComplete AtMostOnce AfterDependents AllWhenReturned CountersSound SinglePass
PROPERTY Terminates
CHECK_DEADLOCK TRUE
