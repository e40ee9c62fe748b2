\* event records, foreign lines and short lines; every cut
CONSTANTS Codes <- CodesA  SvSeqs <- Lists3  MaxEpochs = 2  Gaps <- Gaps1  Extras = TRUE
  Masks <- MasksB  Uses <- Uses0  Windows <- Win0  Measures <- Meas0  Inds <- Both  Ivs <- Iv0  Mode = "single"
SPECIFICATION Spec
INVARIANTS Exact NeverWrong Restriction OwnCodes
CHECK_DEADLOCK FALSE
