SPECIFICATION Spec
CONSTANTS
 W <- W1
 Times <- T4
 MaxCalls = 8
 Shift = 8
 Kinds <- KAll
INVARIANTS ZeroIsIdentity Composes Emit
CHECK_DEADLOCK FALSE
