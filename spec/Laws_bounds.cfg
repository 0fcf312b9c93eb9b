CONSTANTS
  NS = 3
  Big = FALSE
  What = "bounds"
SPECIFICATION Spec
INVARIANT BoundLaws
CHECK_DEADLOCK FALSE
