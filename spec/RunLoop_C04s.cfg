SPECIFICATION Spec
CONSTANTS
 Configs <- C04S_Configs
 Steps <- C04_Steps
 Vals <- C04S_Vals
 MaxRuns = 2
 DiskOps <- NoOps
INVARIANTS NeverPast LinesInOrder GridExact EndsAtReach StatesIncreasing FinalSaved RefusedUntouched HeaderOnce Emit
CHECK_DEADLOCK FALSE
