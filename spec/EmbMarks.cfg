SPECIFICATION Spec
CONSTANTS
  Rows = {1, 2, 3}
  MaxG = 2
  Clients = {a, b}
INVARIANTS Exact Marked
CHECK_DEADLOCK FALSE
