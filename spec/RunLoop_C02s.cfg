SPECIFICATION Spec
CONSTANTS
 Configs <- C02S_Configs
 Steps <- C02S_Steps
 Vals <- NoVals
 MaxRuns = 5
 DiskOps <- C02K_Ops
INVARIANTS NeverPast LinesInOrder GridExact EndsAtReach StatesIncreasing FinalSaved RefusedUntouched HeaderOnce Emit
CHECK_DEADLOCK FALSE
