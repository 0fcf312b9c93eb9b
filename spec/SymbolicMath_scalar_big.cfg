CONSTANTS
  NS = 2
  Steps = 3
  PoolNo = 5
  Ops = {"plus", "minus", "mul", "pow", "deriv", "subst", "substmap"}
  Pts <- SmallPts
SPECIFICATION Spec
INVARIANTS Meaning Normal Extensional Queries
PROPERTY Pure
CHECK_DEADLOCK FALSE
