SPECIFICATION Spec
CONSTANTS
  Procs = {"p", "q"}
  MaxObjs = 5
  MaxArrays = 7
  MaxLen = 4
  Clip = TRUE
  CopyIn = TRUE
  CopyOut = TRUE
INVARIANTS Unchanged NoRace
CHECK_DEADLOCK FALSE
