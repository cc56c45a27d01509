SPECIFICATION Spec
CONSTANTS
 Kinds <- KDyn
 ParsOf <- ParsFull
 Ops <- ODyn
 Times <- T4
 MaxCalls = 5
 NStates = 4
 Pick <- PickOne
INVARIANTS Dissipative ChOk Emit
CHECK_DEADLOCK FALSE
