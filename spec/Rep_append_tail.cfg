CONSTANTS
  Steps = 3
  Defects = {"append", "tail"}
SPECIFICATION Spec
INVARIANT Kept
CHECK_DEADLOCK FALSE
