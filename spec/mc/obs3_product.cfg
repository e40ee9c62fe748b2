\* all combinations of options
CONSTANTS Codes <- CodesA  SvSeqs <- Lists3  MaxEpochs = 2  Gaps <- GapsA  Extras = FALSE
  Masks <- Masks1  Uses <- UsesA  Windows <- WinA  Measures <- MeasA  Inds <- Both  Ivs <- IvA  Mode = "product"
SPECIFICATION Spec
INVARIANTS Exact NeverWrong Restriction OwnCodes
CHECK_DEADLOCK FALSE
