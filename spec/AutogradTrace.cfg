SPECIFICATION Spec
VIEW View
INVARIANT DefinitionOK
CONSTRAINT Counted
POSTCONDITION Done
CHECK_DEADLOCK FALSE
