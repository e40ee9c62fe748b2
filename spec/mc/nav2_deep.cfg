\* four records
CONSTANTS Sys = "R"  MaxRecs = 4  Prns <- PrnsA  Times <- TimesA  Windows <- WinA  Lasts <- Lasts1  Extras = FALSE
SPECIFICATION Spec
INVARIANTS Exact NeverWrong Restriction Deviation
CHECK_DEADLOCK FALSE
