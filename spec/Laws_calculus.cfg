CONSTANTS
  NS = 3
  Big = FALSE
  What = "calculus"
SPECIFICATION Spec
INVARIANT CalculusLaws
CHECK_DEADLOCK FALSE
