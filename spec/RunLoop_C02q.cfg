SPECIFICATION Spec
CONSTANTS
 Configs <- C02Q_Configs
 Steps <- C02_Steps
 Vals <- NoVals
 MaxRuns = 2
 DiskOps <- NoOps
INVARIANTS NeverPast LinesInOrder GridExact EndsAtReach StatesIncreasing FinalSaved RefusedUntouched HeaderOnce Emit
CHECK_DEADLOCK FALSE
