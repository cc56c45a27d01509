SPECIFICATION Spec
CONSTANTS Tabs <- SmallTabs
MaxWords = 2
Simulating = FALSE
Cutoffs <- CutQ
Focks <- FockQ
Alphas <- AlphaQ
Qbits <- QbitQ
Fins <- FinQ
Packets <- PacketQ
HOs <- HOQ
Pumps <- PumpQ
Tokens <- TokQ
INVARIANTS LastWins Physical Emit
CHECK_DEADLOCK FALSE
