SPECIFICATION Spec
CONSTANTS
 Kinds <- KDiss
 ParsOf <- ParsFull
 Ops <- ODiss
 Times <- T4
 MaxCalls = 6
 NStates = 4
 Pick <- PickOne
INVARIANTS Dissipative ChOk Emit
CHECK_DEADLOCK FALSE
