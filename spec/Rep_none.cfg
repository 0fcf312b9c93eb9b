CONSTANTS
  Steps = 3
  Defects = {}
SPECIFICATION Spec
INVARIANT Kept
CHECK_DEADLOCK FALSE
