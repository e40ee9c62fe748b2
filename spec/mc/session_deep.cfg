SPECIFICATION Spec
CONSTANTS
  Files = {1, 2}
  Streams = {1, 2}
  Contents = {0, 1, 2}
  Calls = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
  MaxLen = 14
INVARIANT Functional
CONSTRAINT Emit
