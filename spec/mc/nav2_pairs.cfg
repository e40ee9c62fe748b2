\* pairs of records with every form of the last field
CONSTANTS Sys = "G"  MaxRecs = 2  Prns <- PrnsA  Times <- TimesB  Windows <- WinA  Lasts <- LastsA  Extras = TRUE
SPECIFICATION Spec
INVARIANTS Exact NeverWrong Restriction Deviation
CHECK_DEADLOCK FALSE
