\* orders of the steps of three calls, exported
CONSTANTS Procs = {1, 2, 3}  Contents = {1}  Calls = {1}  Even = TRUE
SPECIFICATION Spec
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
