CONSTANT P = 7
CONSTANT Known = {}
CONSTANT R = 7
CONSTANT Q1 = 41
CONSTANT A1 = 1
CONSTANT B1 = 15
CONSTANT Q2 = 503
CONSTANT A2 = 1
CONSTANT B2 = 22
CONSTANT QT = 83
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
