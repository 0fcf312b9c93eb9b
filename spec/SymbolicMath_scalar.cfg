CONSTANTS
  NS = 2
  Steps = 2
  PoolNo = 1
  Ops = {"plus", "minus", "mul", "pow", "deriv", "subst", "substmap"}
SPECIFICATION Spec
INVARIANTS Meaning Normal Extensional Queries
PROPERTY Pure
CHECK_DEADLOCK FALSE
