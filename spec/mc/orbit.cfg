SPECIFICATION Spec
CONSTANTS
  Every = 7
  MaxAngle = 9
INVARIANTS Agree Laws
