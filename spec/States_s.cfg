SPECIFICATION Spec
CONSTANTS Tabs <- AllTabs
MaxWords = 7
Simulating = TRUE
Cutoffs <- CutS
Focks <- FockS
Alphas <- AlphaS
Qbits <- QbitS
Fins <- FinQ
Packets <- PacketS
HOs <- HOS
Pumps <- PumpQ
Tokens <- TokQ
INVARIANTS LastWins Physical Emit
CHECK_DEADLOCK FALSE
