SPECIFICATION Spec
CONSTANTS
 Chunks <- Q_Chunks
 Data <- Q_Data
 Streams <- Two
 MaxOps = 4
 MaxLen = 100
INVARIANTS MarkedOnce DataUntouched Emit
CHECK_DEADLOCK FALSE
