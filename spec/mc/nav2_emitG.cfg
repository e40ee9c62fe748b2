\* exported
CONSTANTS Sys = "G"  MaxRecs = 2  Prns <- PrnsA  Times <- TimesA  Windows <- WinA  Lasts <- LastsA  Extras = TRUE
SPECIFICATION Spec
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
