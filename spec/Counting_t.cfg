SPECIFICATION Spec
CONSTANT Cases <- T
INVARIANTS Ordered Complete Conserved Emit
CHECK_DEADLOCK FALSE
