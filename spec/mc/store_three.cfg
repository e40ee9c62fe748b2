SPECIFICATION Spec
CONSTANTS
  Alts = {""}
  Sources = {"A", "B", "C", "D", "E"}
  Outs = {"dir", "x", "a", "other"}
  MaxLen = 3
INVARIANTS Faithful NoEmpty FailsLeaveNothing OrderFree
PROPERTIES Protected Local
