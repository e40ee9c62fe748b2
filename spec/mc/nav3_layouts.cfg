\* every layout of every system in pairs
CONSTANTS MaxRecs = 2  Layouts <- LayoutsAll  Times <- Times1  Windows <- Win0  Uses <- Uses0  Extras = FALSE
SPECIFICATION Spec
INVARIANTS Exact AllKept NeverWrong Restriction
CHECK_DEADLOCK FALSE
