\* records in any order, repeated epochs, last field omitted or blank
CONSTANTS Sys = "R"  MaxRecs = 3  Prns <- PrnsA  Times <- TimesB  Windows <- WinA  Lasts <- LastsA  Extras = TRUE
SPECIFICATION Spec
INVARIANTS Exact NeverWrong Restriction Deviation
CHECK_DEADLOCK FALSE
