CONSTANTS
  NS = 2
  Steps = 2
  PoolNo = 3
  Ops = {"plus", "minus", "mul", "pow", "tr", "deriv", "subst", "at", "hstack", "vstack"}
SPECIFICATION Spec
INVARIANTS Meaning Normal Queries
PROPERTY Pure
CHECK_DEADLOCK FALSE
