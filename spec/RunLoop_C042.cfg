SPECIFICATION Spec
CONSTANTS
 Configs <- C042_Configs
 Steps <- C04_Steps
 Vals <- C042_Vals
 MaxRuns = 1
 DiskOps <- NoOps
INVARIANTS NeverPast LinesInOrder GridExact EndsAtReach StatesIncreasing FinalSaved RefusedUntouched HeaderOnce Emit
CHECK_DEADLOCK FALSE
