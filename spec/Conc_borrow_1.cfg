CONSTANTS
  Procs = {"p"}
  Calls = 2
  Defect = "borrow"
SPECIFICATION Spec
INVARIANTS AsAlone Kept
CHECK_DEADLOCK FALSE
