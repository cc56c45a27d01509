SPECIFICATION Spec
CONSTANTS
 DimsSet <- DimsS
 Seeds = {0, 1, 2}
 ChannelSets <- ChAll
 Specials = {0, 2, 5}
 Caps <- AllCaps
 Dts <- Dt2
 Fs <- F2
 Gs <- G1
 DtInits <- DI
 MaxOps = 3
 WithResume = TRUE
 Pick <- PickAll
INVARIANTS HermitianAlways Reference RhsHermitian Emit
CHECK_DEADLOCK FALSE
