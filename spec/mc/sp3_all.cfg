\* satellites absent, EP/EV lines, midnight written in four ways
CONSTANTS Svs <- SvsA  MaxEpochs = 3  Vel = TRUE  Extras = TRUE
SPECIFICATION Spec
INVARIANTS Exact NeverWrong Ordered Functional
CHECK_DEADLOCK FALSE
