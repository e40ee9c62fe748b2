\* two epochs
CONSTANTS Svs <- SvsA  MaxEpochs = 2  Vel = TRUE  Extras = TRUE
SPECIFICATION Spec
INVARIANTS Exact NeverWrong Ordered Functional
CHECK_DEADLOCK FALSE
