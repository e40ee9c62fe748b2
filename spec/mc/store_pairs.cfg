SPECIFICATION Spec
CONSTANTS
  Alts = {""}
  Sources = {"A", "B", "C", "D", "E"}
  Outs = {"dir", "x", "a", "none", "other", "orphan"}
  MaxLen = 2
INVARIANTS Faithful NoEmpty FailsLeaveNothing OrderFree
PROPERTIES Protected Local
INVARIANT Emit
