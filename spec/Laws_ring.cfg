CONSTANTS
  NS = 3
  Big = FALSE
  What = "ring"
SPECIFICATION Spec
INVARIANT RingLaws
CHECK_DEADLOCK FALSE
