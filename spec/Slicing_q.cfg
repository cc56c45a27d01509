SPECIFICATION Spec
CONSTANT Cases <- Quick
INVARIANTS ExactlyOnce Disjoint Emit
CHECK_DEADLOCK FALSE
