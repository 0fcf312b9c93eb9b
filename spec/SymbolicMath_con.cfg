CONSTANTS
  NS = 2
  Steps = 3
  PoolNo = 2
  Ops = {"cmp", "cassimp", "cscale", "csubst", "cat", "compile"}
SPECIFICATION Spec
INVARIANTS Solutions Meaning
PROPERTY Pure
CHECK_DEADLOCK FALSE
