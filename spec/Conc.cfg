CONSTANTS
  Procs = {"p", "q"}
  Calls = 2
  Defect = "none"
SPECIFICATION Spec
INVARIANTS AsAlone Kept
CHECK_DEADLOCK FALSE
