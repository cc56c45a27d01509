SPECIFICATION Spec
CONSTANTS
 Ns <- N23
 Seeds = {0, 1, 2, 3, 4}
 ChannelSets <- ChAll
 Caps <- AllCaps
 Dts <- Dt3
 Fs <- F2
 Gs <- G2
 DpTols <- DpT3
 DtInits <- DI2
 Specials = {0, 1, 2, 3, 6}
 MaxOps = 5
 Edges <- E1
 WithResume = TRUE
 Pick <- PickOne
INVARIANTS Reference NeverOvershoots JumpLogOrdered TryLimited Emit
PROPERTIES StepBounded OneJumpAtMost
CHECK_DEADLOCK FALSE
