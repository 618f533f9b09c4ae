SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxLen = 4
  Slots = 2
INVARIANTS OnlyOnce NothingAfter Success Failure
PROPERTY Terminates
CHECK_DEADLOCK TRUE
