\* positions only
CONSTANTS Svs <- SvsB  MaxEpochs = 3  Vel = FALSE  Extras = TRUE
SPECIFICATION Spec
INVARIANTS Exact NeverWrong Ordered Functional
CHECK_DEADLOCK FALSE
