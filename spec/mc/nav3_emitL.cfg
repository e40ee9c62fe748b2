\* exported: every layout of every system
CONSTANTS MaxRecs = 1  Layouts <- LayoutsAll  Times <- Times1  Windows <- Win0  Uses <- Uses0  Extras = FALSE
SPECIFICATION Spec
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
