SPECIFICATION Spec
INVARIANTS Total Emit
