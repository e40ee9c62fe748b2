SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Fam = "nav2"
  Alphabet = {"a2","b2","b3","s1","c1","c2"}
INVARIANTS Agrees Emit
