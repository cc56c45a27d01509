SPECIFICATION Spec
CONSTANT Cases <- Q
INVARIANTS Ordered Complete Conserved Emit
CHECK_DEADLOCK FALSE
