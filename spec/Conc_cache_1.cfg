CONSTANTS
  Procs = {"p"}
  Calls = 2
  Defect = "cache"
SPECIFICATION Spec
INVARIANTS AsAlone Kept
CHECK_DEADLOCK FALSE
