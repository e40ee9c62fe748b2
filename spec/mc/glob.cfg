SPECIFICATION Spec
CONSTANTS
  MaxPat = 4
  MaxName = 4
INVARIANTS Agree Emit
