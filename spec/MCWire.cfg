CONSTANT R = 7
CONSTANT Q1 = 41
CONSTANT A1 = 1
CONSTANT B1 = 15
CONSTANT Q2 = 503
CONSTANT A2 = 1
CONSTANT B2 = 22
CONSTANT QT = 83
CONSTANT Small = 1
CONSTANT Arts = {"Tag", "Com1", "Com2", "Key", "Commit1", "Commit2", "Proof", "PPE", "MS1", "MS2", "QUAD"}
SPECIFICATION Spec
INVARIANTS RoundTrip NoPrefix OnlyValid
CHECK_DEADLOCK FALSE
