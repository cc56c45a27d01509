SPECIFICATION Spec
CONSTANTS
 Chunks <- T_Chunks
 Data <- Q_Data
 Streams <- One
 MaxOps = 3
 MaxLen = 100
INVARIANTS MarkedOnce DataUntouched Emit
CHECK_DEADLOCK FALSE
