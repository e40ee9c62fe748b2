SPECIFICATION Spec
CONSTANTS
  Alts = {"", "alt", "NAV"}
  Sources = {"A", "C", "E"}
  Outs = {"dir", "x", "a"}
  MaxLen = 3
INVARIANTS Faithful NoEmpty FailsLeaveNothing OrderFree
PROPERTIES Protected Local
