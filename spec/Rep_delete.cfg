CONSTANTS
  Steps = 3
  Defects = {"delete"}
SPECIFICATION Spec
INVARIANT Kept
CHECK_DEADLOCK FALSE
