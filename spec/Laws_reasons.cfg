CONSTANTS
  NS = 3
  Big = FALSE
  What = "reasons"
SPECIFICATION Spec
INVARIANT ReasonLaws
CHECK_DEADLOCK FALSE
