\* all combinations of options
CONSTANTS PerLine = 2  SatsPerLine = 2  Types <- TypesB  SvSeqs <- Lists2  MaxEpochs = 2  Gaps <- GapsA
  Extras = FALSE  Masks <- Masks1  Uses <- UsesA  Windows <- WinA  Measures <- MeasA  Inds <- Both  Ivs <- IvA  Mode = "product"
SPECIFICATION Spec
INVARIANTS Exact NeverWrong Restriction Decimation
CHECK_DEADLOCK FALSE
