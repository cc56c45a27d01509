SPECIFICATION Spec
CONSTANTS
 DimsSet <- DimsQ
 Seeds = {0, 1}
 ChannelSets <- ChAll
 Specials = {0, 2}
 Caps <- AllCaps
 Dts <- Dt2
 Fs <- F1
 Gs <- G1
 DtInits <- DI
 MaxOps = 3
 WithResume = TRUE
 Pick <- PickAll
INVARIANTS HermitianAlways Reference RhsHermitian Emit
CHECK_DEADLOCK FALSE
