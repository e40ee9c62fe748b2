\* all interleavings of three calls on two contents
CONSTANTS Procs = {1, 2}  Contents = {1, 2}  Calls = {0, 1, 2}  Even = FALSE
SPECIFICATION Spec
INVARIANTS Separate OwnPart
CHECK_DEADLOCK FALSE
