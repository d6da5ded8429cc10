CONSTANT P = 7
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
