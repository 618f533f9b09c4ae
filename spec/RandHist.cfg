SPECIFICATION Spec
CONSTRAINT Accepted
CHECK_DEADLOCK FALSE
