CONSTANTS
  NS = 3
  Big = FALSE
  What = "multi"
SPECIFICATION Spec
INVARIANT MultiLaws
CHECK_DEADLOCK FALSE
