SPECIFICATION Spec
CONSTANTS
 Ns <- N23
 Seeds = {0, 2}
 ChannelSets <- ChAll
 Caps <- AllCaps
 Dts <- Dt1
 Fs <- F2
 Gs <- G1
 DpTols <- DpT2
 DtInits <- DI
 Specials = {0, 2}
 MaxOps = 2
 Edges <- E3
 WithResume = TRUE
 Pick <- PickAll
INVARIANTS Reference NeverOvershoots JumpLogOrdered TryLimited Emit
PROPERTIES StepBounded OneJumpAtMost
CHECK_DEADLOCK FALSE
