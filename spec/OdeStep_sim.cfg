SPECIFICATION Spec
CONSTANTS
 DtInits <- S_DtInits
 Deltas <- S_Deltas
 Advances <- S_Advances
 Growths <- S_Growths
 MaxFail = 3
 MaxCalls = 14
 MaxMicro = 40
INVARIANTS TypeOK NeverBeyond HonestDtDid TinyStepsHarmless NoPassing Emit
CHECK_DEADLOCK FALSE
