SPECIFICATION GSpec
CONSTANTS
  N = 5
  MaxLen = 6
  Slots = 16
INVARIANTS OnlyOnce NothingAfter Success Failure
CHECK_DEADLOCK FALSE
