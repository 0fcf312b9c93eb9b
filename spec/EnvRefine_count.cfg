CONSTANTS
  NEnv = 2
  MaxId = 3
  MaxLen = 3
  Policy = "count"
SPECIFICATION Spec
PROPERTY Refines
CHECK_DEADLOCK FALSE
