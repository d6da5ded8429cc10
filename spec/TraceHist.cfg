SPECIFICATION TSpec
VIEW TView
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT P = 10007
CONSTANTS
  NoKey = NoKey
  NReg = 3
  NEq = 3
  NPrf = 3
  Exact = TRUE
