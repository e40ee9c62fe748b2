SPECIFICATION Spec
CONSTANTS
  Files = {1}
  Streams = {1}
  Contents = {0, 1}
  Calls = {0, 1, 2, 3, 4, 5, 6, 7}
  MaxLen = 3
INVARIANT Functional
CONSTRAINT Emit
