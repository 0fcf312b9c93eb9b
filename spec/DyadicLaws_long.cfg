CONSTANTS
  NMax = 0
  KMax = 0
  What = "long"
SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
