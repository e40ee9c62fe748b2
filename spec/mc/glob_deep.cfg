SPECIFICATION Spec
CONSTANTS
  MaxPat = 5
  MaxName = 5
INVARIANTS Agree Emit
