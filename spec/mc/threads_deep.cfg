\* all interleavings of three calls
CONSTANTS Procs = {1, 2, 3}  Contents = {1, 2}  Calls = {0, 1}  Even = FALSE
SPECIFICATION Spec
INVARIANTS Separate OwnPart
CHECK_DEADLOCK FALSE
