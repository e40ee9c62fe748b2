\* four epochs
CONSTANTS Svs <- SvsB  MaxEpochs = 4  Vel = TRUE  Extras = TRUE
SPECIFICATION Spec
INVARIANTS Exact NeverWrong Ordered Functional
CHECK_DEADLOCK FALSE
