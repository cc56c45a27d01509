SPECIFICATION Spec
CONSTANTS
 Kinds <- KDiss
 ParsOf <- ParsQuick
 Ops <- ODiss
 Times <- T2
 MaxCalls = 1
 NStates = 2
 Pick <- PickAll
INVARIANTS Dissipative ChOk Emit
CHECK_DEADLOCK FALSE
