CONSTANTS
  NS = 3
  Big = TRUE
  What = "bounds"
SPECIFICATION Spec
INVARIANT BoundLaws
CHECK_DEADLOCK FALSE
