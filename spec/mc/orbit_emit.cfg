SPECIFICATION Spec
CONSTANTS
  Every = 2
  MaxAngle = 0
INVARIANT Emit
