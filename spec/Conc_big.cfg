CONSTANTS
  Procs = {"p", "q", "r"}
  Calls = 2
  Defect = "none"
SPECIFICATION Spec
INVARIANTS AsAlone Kept
CHECK_DEADLOCK FALSE
