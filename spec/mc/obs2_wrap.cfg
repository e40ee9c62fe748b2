\* the real line shapes: five values and twelve satellites a line
CONSTANTS PerLine = 5  SatsPerLine = 12  Types <- TypesC  SvSeqs <- Wraps  MaxEpochs = 2  Gaps <- GapsA
  Extras = FALSE  Masks <- MasksB  Uses <- UsesA  Windows <- Win0  Measures <- MeasA  Inds <- Both  Ivs <- Iv0  Mode = "single"
SPECIFICATION Spec
INVARIANTS Exact NeverWrong Restriction Decimation
CHECK_DEADLOCK FALSE
