CONSTANTS
  Procs = {"p", "q"}
  Calls = 2
  Defect = "scratch"
SPECIFICATION Spec
INVARIANTS AsAlone Kept
CHECK_DEADLOCK FALSE
