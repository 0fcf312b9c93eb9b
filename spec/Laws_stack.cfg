CONSTANTS
  NS = 3
  Big = FALSE
  What = "stack"
SPECIFICATION Spec
INVARIANT StackLaws
CHECK_DEADLOCK FALSE
