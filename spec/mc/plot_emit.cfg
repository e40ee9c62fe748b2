SPECIFICATION Spec
CONSTANTS
  NTimes = 3
  NRecs = 3
  Rows = 2
INVARIANT Emit
