\* exported
CONSTANTS Svs <- SvsB  MaxEpochs = 2  Vel = TRUE  Extras = TRUE
SPECIFICATION Spec
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
