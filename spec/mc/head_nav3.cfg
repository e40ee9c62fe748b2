SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Fam = "nav3"
  Alphabet = {"ga","gb","g2","ea","ba","bb","ta","tb","c1","c2","s1"}
INVARIANTS Agrees Emit
