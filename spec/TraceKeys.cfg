SPECIFICATION Spec
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT P = 5
CONSTANT SIGMAS = 9
