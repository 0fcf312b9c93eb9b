CONSTANTS
  Steps = 4
  Defects = {}
SPECIFICATION Spec
INVARIANT Kept
CHECK_DEADLOCK FALSE
