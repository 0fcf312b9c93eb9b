CONSTANTS
  Procs = {"p", "q"}
  Calls = 2
  Defect = "borrow"
SPECIFICATION Spec
INVARIANTS AsAlone Kept
CHECK_DEADLOCK FALSE
