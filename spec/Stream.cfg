SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS InOrder Complete NoGap
PROPERTY Ends
CHECK_DEADLOCK FALSE
