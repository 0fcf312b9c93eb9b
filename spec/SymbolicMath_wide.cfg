CONSTANTS
  NS = 2
  Steps = 2
  PoolNo = 4
  Ops = {"plus", "minus", "mul", "tr", "deriv", "subst", "at", "hstack", "vstack"}
SPECIFICATION Spec
INVARIANTS Meaning Normal Queries
PROPERTY Pure
CHECK_DEADLOCK FALSE
