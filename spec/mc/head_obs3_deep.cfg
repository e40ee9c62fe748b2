SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Fam = "obs3"
  Alphabet = {"p0","p1","p2","i1","i2","f1","f2","l1","m1","m2","c1","c2","c3","o1"}
INVARIANTS Agrees Emit
