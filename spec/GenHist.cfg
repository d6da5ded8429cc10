SPECIFICATION Spec
INVARIANTS Opening Soundness FaithfulValues
CHECK_DEADLOCK FALSE
CONSTANTS
  P = 10007
  NoKey = NoKey
  NReg = 3
  NEq = 3
  NPrf = 3
  Depth = 40
  MaxVals = 3
  MaxLen = 7
  Profile = "lists"
