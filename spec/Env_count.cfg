CONSTANTS
  NEnv = 2
  MaxId = 4
  MaxLen = 3
  Policy = "count"
SPECIFICATION Spec
INVARIANTS Once Fresh Tracked Told
PROPERTIES Separate Grows
CHECK_DEADLOCK FALSE
