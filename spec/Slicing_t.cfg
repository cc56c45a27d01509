SPECIFICATION Spec
CONSTANT Cases <- Thorough
INVARIANTS ExactlyOnce Disjoint Emit
CHECK_DEADLOCK FALSE
