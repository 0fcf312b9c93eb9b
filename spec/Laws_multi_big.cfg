CONSTANTS
  NS = 3
  Big = TRUE
  What = "multi"
SPECIFICATION Spec
INVARIANT MultiLaws
CHECK_DEADLOCK FALSE
