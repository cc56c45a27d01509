SPECIFICATION Spec
CONSTANTS
 Configs <- C01F_Configs
 Steps <- C01F_Steps
 Vals <- NoVals
 MaxRuns = 1
 DiskOps <- NoOps
INVARIANTS GridFine NeverPast LinesInOrder EndsAtReach StatesIncreasing FinalSaved RefusedUntouched HeaderOnce Emit
CHECK_DEADLOCK FALSE
