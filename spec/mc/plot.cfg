SPECIFICATION Spec
CONSTANTS
  NTimes = 2
  NRecs = 4
  Rows = 2
INVARIANTS Drawn Tracked Hotter
