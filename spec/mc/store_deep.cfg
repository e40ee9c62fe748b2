SPECIFICATION Spec
CONSTANTS
  Alts = {"", "alt", "NAV"}
  Sources = {"A", "B", "C", "D", "E"}
  Outs = {"dir", "x", "a", "other"}
  MaxLen = 8
INVARIANTS Faithful NoEmpty FailsLeaveNothing OrderFree
INVARIANT Emit
