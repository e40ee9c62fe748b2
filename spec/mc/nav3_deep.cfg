\* three records, windows and selections
CONSTANTS MaxRecs = 3  Layouts <- LayoutsA  Times <- TimesA  Windows <- WinA  Uses <- UsesA  Extras = FALSE
SPECIFICATION Spec
INVARIANTS Exact AllKept NeverWrong Restriction
CHECK_DEADLOCK FALSE
