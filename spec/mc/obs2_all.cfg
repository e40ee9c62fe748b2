\* every option combination on files of up to two epochs
CONSTANTS PerLine = 2  SatsPerLine = 2  Types <- TypesB  SvSeqs <- Lists3  MaxEpochs = 2  Gaps <- GapsA
  Extras = FALSE  Masks <- MasksB  Uses <- UsesA  Windows <- WinA  Measures <- MeasA  Inds <- Both  Ivs <- IvA  Mode = "single"
SPECIFICATION Spec
INVARIANTS Exact NeverWrong Restriction Decimation
CHECK_DEADLOCK FALSE
