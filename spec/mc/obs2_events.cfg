\* event records and foreign lines between epochs; every cut
CONSTANTS PerLine = 2  SatsPerLine = 2  Types <- TypesB  SvSeqs <- Lists3  MaxEpochs = 2  Gaps <- GapsA
  Extras = TRUE  Masks <- Masks1  Uses <- Uses0  Windows <- Win0  Measures <- Meas0  Inds <- Both  Ivs <- Iv0  Mode = "single"
SPECIFICATION Spec
INVARIANTS Exact NeverWrong Restriction Decimation
CHECK_DEADLOCK FALSE
