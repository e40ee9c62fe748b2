\* three records in any order
CONSTANTS Sys = "R"  MaxRecs = 3  Prns <- PrnsA  Times <- TimesB  Windows <- WinA  Lasts <- Lasts1  Extras = FALSE
SPECIFICATION Spec
INVARIANTS Exact NeverWrong Restriction Deviation
CHECK_DEADLOCK FALSE
