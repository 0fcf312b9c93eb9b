CONSTANTS
  Steps = 3
  Defects = {"write"}
SPECIFICATION Spec
INVARIANT Kept
CHECK_DEADLOCK FALSE
