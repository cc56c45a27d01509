SPECIFICATION Spec
CONSTANTS
 DtInits <- R_DtInits
 Deltas <- R_Deltas
 Advances <- R_Advances
 Growths <- R_GSL
 MaxFail = 0
 MaxCalls = 3
 MaxMicro = 8
INVARIANTS TypeOK NeverBeyond HonestDtDid TinyStepsHarmless NoPassing Emit
CHECK_DEADLOCK FALSE
