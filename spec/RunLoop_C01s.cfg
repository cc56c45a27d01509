SPECIFICATION Spec
CONSTANTS
 Configs <- C01S_Configs
 Steps <- C01S_Steps
 Vals <- NoVals
 MaxRuns = 1
 DiskOps <- NoOps
INVARIANTS GridFine NeverPast LinesInOrder GridExact EndsAtReach StatesIncreasing FinalSaved RefusedUntouched HeaderOnce Emit
CHECK_DEADLOCK FALSE
