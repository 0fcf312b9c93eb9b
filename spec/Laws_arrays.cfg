CONSTANTS
  NS = 3
  Big = FALSE
  What = "arrays"
SPECIFICATION Spec
INVARIANT ArrayLaws
CHECK_DEADLOCK FALSE
