SPECIFICATION Spec
VIEW MCView
INVARIANTS Opening Soundness FaithfulValues Completeness
PROPERTY Conserved
CHECK_DEADLOCK FALSE
CONSTANTS
  P = 3
  NoKey = NoKey
  NReg = 1
  NEq = 1
  NPrf = 1
  Ty = "QUAD"
  MaxLen = 1
  Coefs = {0, 1}
  YRegs = {1}
  FewKeys = FALSE
