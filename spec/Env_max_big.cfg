CONSTANTS
  NEnv = 2
  MaxId = 5
  MaxLen = 4
  Policy = "max"
SPECIFICATION Spec
INVARIANTS Once Fresh Tracked Told
PROPERTIES Separate Grows
CHECK_DEADLOCK FALSE
