SPECIFICATION Spec
CONSTANTS Tabs <- ParTabs
MaxWords = 0
Simulating = FALSE
Cutoffs <- CutQ
Focks <- FockQ
Alphas <- AlphaQ
Qbits <- QbitQ
Fins <- FinQ
Packets <- PacketQ
HOs <- HOQ
Pumps <- PumpQ
Tokens <- TokQ
INVARIANTS LastWins Physical Emit
CHECK_DEADLOCK FALSE
