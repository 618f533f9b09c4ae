SPECIFICATION Spec
CONSTRAINT Counted
POSTCONDITION Done
CHECK_DEADLOCK FALSE
