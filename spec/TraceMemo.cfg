CONSTANT P = 7
SPECIFICATION Spec
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
