SPECIFICATION Spec
CONSTANTS
 Configs <- C04Q_Configs
 Steps <- C04_Steps
 Vals <- C04Q_Vals
 MaxRuns = 1
 DiskOps <- NoOps
INVARIANTS NeverPast LinesInOrder GridExact EndsAtReach StatesIncreasing FinalSaved RefusedUntouched HeaderOnce Emit
CHECK_DEADLOCK FALSE
