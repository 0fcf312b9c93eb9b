CONSTANTS
  Procs = {"p"}
  Calls = 2
  Defect = "scratch"
SPECIFICATION Spec
INVARIANTS AsAlone Kept
CHECK_DEADLOCK FALSE
