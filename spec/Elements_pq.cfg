SPECIFICATION Spec
CONSTANTS
 Kinds <- KDyn
 ParsOf <- ParsQuick
 Ops <- ODyn
 Times <- T2
 MaxCalls = 1
 NStates = 2
 Pick <- PickAll
INVARIANTS Dissipative ChOk Emit
CHECK_DEADLOCK FALSE
