CONSTANTS
  NEnv = 2
  MaxId = 3
  MaxLen = 3
  Policy = "max"
SPECIFICATION Spec
INVARIANTS Once Fresh Tracked Told
PROPERTIES Separate Grows
CHECK_DEADLOCK FALSE
