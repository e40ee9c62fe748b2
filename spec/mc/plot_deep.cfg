SPECIFICATION Spec
CONSTANTS
  NTimes = 3
  NRecs = 5
  Rows = 3
INVARIANTS Drawn Tracked Hotter
