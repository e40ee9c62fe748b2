\* exported
CONSTANTS MaxRecs = 2  Layouts <- LayoutsA  Times <- TimesA  Windows <- WinA  Uses <- UsesA  Extras = TRUE
SPECIFICATION Spec
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
