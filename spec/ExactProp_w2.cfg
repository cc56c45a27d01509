SPECIFICATION Spec
CONSTANTS
 W <- W2
 Times <- T3
 MaxCalls = 3
 Shift = 8
 Kinds <- KAll
INVARIANTS ZeroIsIdentity Composes Emit
CHECK_DEADLOCK FALSE
