SPECIFICATION Spec
INVARIANTS Exact Same
CONSTRAINT Emit
