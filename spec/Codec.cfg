SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3}
  Contents = {"a", "b"}
  Streams = {1, 2}
  Broken = "broken"
  MaxLen = 2
INVARIANTS NoHalfObject OnlySaved
PROPERTY Isolation
CHECK_DEADLOCK FALSE
