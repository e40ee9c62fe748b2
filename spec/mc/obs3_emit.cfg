\* every small file with every single option: exported
CONSTANTS Codes <- CodesB  SvSeqs <- Lists2  MaxEpochs = 2  Gaps <- Gaps1  Extras = TRUE
  Masks <- MasksE  Uses <- UsesA  Windows <- WinA  Measures <- MeasA  Inds <- Both  Ivs <- IvA  Mode = "single"
SPECIFICATION Spec
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
