SPECIFICATION Spec
CONSTANTS
 DtInits <- Q_DtInits
 Deltas <- Q_Deltas
 Advances <- Q_Advances
 Growths <- Q_Growths
 MaxFail = 1
 MaxCalls = 3
 MaxMicro = 3
INVARIANTS TypeOK NeverBeyond HonestDtDid TinyStepsHarmless NoPassing Emit
CHECK_DEADLOCK FALSE
