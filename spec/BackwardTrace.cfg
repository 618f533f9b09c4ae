SPECIFICATION Spec
VIEW View
CONSTRAINT Counted
POSTCONDITION Done
CHECK_DEADLOCK FALSE
