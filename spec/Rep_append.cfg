CONSTANTS
  Steps = 3
  Defects = {"append"}
SPECIFICATION Spec
INVARIANT Kept
CHECK_DEADLOCK FALSE
