SPECIFICATION Spec
CONSTANTS
 Chunks <- S_Chunks
 Data <- S_Data
 Streams <- Two
 MaxOps = 16
 MaxLen = 100
INVARIANTS MarkedOnce DataUntouched Emit
CHECK_DEADLOCK FALSE
