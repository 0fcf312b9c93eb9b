CONSTANTS
  Steps = 3
  Defects = {"tail"}
SPECIFICATION Spec
INVARIANT Kept
CHECK_DEADLOCK FALSE
