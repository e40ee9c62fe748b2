SPECIFICATION Spec
CONSTANTS
  Every = 1
  MaxAngle = 30
INVARIANTS Agree Laws
