SPECIFICATION Spec
CONSTANTS
 DimsSet <- DimsS
 Seeds = {0, 1, 2, 3, 4}
 ChannelSets <- ChAll
 Specials = {0, 1, 2, 3, 6, 7}
 Caps <- AllCaps
 Dts <- Dt3
 Fs <- F2
 Gs <- G2
 DtInits <- DI2
 MaxOps = 5
 WithResume = TRUE
 Pick <- PickOne
INVARIANTS HermitianAlways Reference RhsHermitian Emit
CHECK_DEADLOCK FALSE
