\* decimation with windows over up to five epochs of any spacing
CONSTANTS PerLine = 2  SatsPerLine = 2  Types <- Types1  SvSeqs <- One  MaxEpochs = 5  Gaps <- GapsD
  Extras = FALSE  Masks <- Masks1  Uses <- Uses0  Windows <- WinA  Measures <- Meas0  Inds <- No  Ivs <- IvA  Mode = "product"
SPECIFICATION Spec
INVARIANTS Exact NeverWrong Restriction Decimation
CHECK_DEADLOCK FALSE
