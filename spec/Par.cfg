SPECIFICATION Spec
INVARIANTS Correct Once Bounded Orders
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  P = 10007
  NP = 1
  NR = 2
  NC = 2
  K = 2
  W = 2
