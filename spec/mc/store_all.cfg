SPECIFICATION Spec
CONSTANTS
  Alts = {""}
  Sources = {"A", "B", "C", "D", "E"}
  Outs = {"dir", "x", "a", "other"}
  MaxLen = 4
INVARIANTS Faithful NoEmpty FailsLeaveNothing OrderFree
PROPERTIES Protected Local
