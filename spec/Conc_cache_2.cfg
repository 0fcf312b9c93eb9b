CONSTANTS
  Procs = {"p", "q"}
  Calls = 2
  Defect = "cache"
SPECIFICATION Spec
INVARIANTS AsAlone Kept
CHECK_DEADLOCK FALSE
