SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxLen = 3
  Slots = 2
INVARIANTS OnlyOnce NothingAfter Success Failure
PROPERTY Terminates
CHECK_DEADLOCK TRUE
