\* orders of the steps of two calls, exported
CONSTANTS Procs = {1, 2}  Contents = {1}  Calls = {0, 1, 2}  Even = FALSE
SPECIFICATION Spec
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
