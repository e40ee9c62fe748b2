\* pairs of records
CONSTANTS MaxRecs = 2  Layouts <- LayoutsA  Times <- Times1  Windows <- WinA  Uses <- UsesA  Extras = TRUE
SPECIFICATION Spec
INVARIANTS Exact AllKept NeverWrong Restriction
CHECK_DEADLOCK FALSE
