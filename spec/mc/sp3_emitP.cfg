\* exported: positions only, three satellites
CONSTANTS Svs <- SvsA  MaxEpochs = 2  Vel = FALSE  Extras = TRUE
SPECIFICATION Spec
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
