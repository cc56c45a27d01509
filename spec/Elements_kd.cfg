SPECIFICATION Spec
CONSTANTS
 Kinds <- KSpinR
 ParsOf <- ParsQuick
 Ops <- OGen
 Times <- T2
 MaxCalls = 1
 NStates = 2
 Pick <- PickAll
INVARIANTS Dissipative ChOk Emit
CHECK_DEADLOCK FALSE
