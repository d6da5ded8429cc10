SPECIFICATION Spec
INVARIANTS Complete Hides AllProofs
CHECK_DEADLOCK FALSE
CONSTANTS
  P = 2
  Ty = "QUAD"
  M = 1
  N = 1
  Coefs = {0, 1}
  FewKeys = TRUE
