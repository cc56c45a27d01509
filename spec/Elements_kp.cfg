SPECIFICATION Spec
CONSTANTS
 Kinds <- KBiT
 ParsOf <- ParsQuick
 Ops <- OGen
 Times <- T3
 MaxCalls = 1
 NStates = 2
 Pick <- PickAll
INVARIANTS Dissipative ChOk Emit
CHECK_DEADLOCK FALSE
