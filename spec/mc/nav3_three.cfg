\* three records of any satellites and times
CONSTANTS MaxRecs = 3  Layouts <- LayoutsA  Times <- Times1  Windows <- Win0  Uses <- Uses0  Extras = FALSE
SPECIFICATION Spec
INVARIANTS Exact AllKept NeverWrong Restriction
CHECK_DEADLOCK FALSE
