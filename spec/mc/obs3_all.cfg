\* every single option on files of up to two epochs
CONSTANTS Codes <- CodesA  SvSeqs <- Lists3  MaxEpochs = 2  Gaps <- GapsA  Extras = FALSE
  Masks <- MasksB  Uses <- UsesA  Windows <- WinA  Measures <- MeasA  Inds <- Both  Ivs <- IvA  Mode = "single"
SPECIFICATION Spec
INVARIANTS Exact NeverWrong Restriction OwnCodes
CHECK_DEADLOCK FALSE
