CONSTANTS
  NS = 2
  Steps = 4
  PoolNo = 6
  Ops = {"cmp", "cassimp", "cscale", "csubst", "cat", "compile"}
SPECIFICATION Spec
INVARIANTS Solutions Meaning
PROPERTY Pure
CHECK_DEADLOCK FALSE
