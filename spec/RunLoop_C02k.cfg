SPECIFICATION Spec
CONSTANTS
 Configs <- C02K_Configs
 Steps <- C02_Steps
 Vals <- NoVals
 MaxRuns = 2
 DiskOps <- C02K_Ops
INVARIANTS NeverPast LinesInOrder GridExact EndsAtReach StatesIncreasing FinalSaved RefusedUntouched HeaderOnce Emit
CHECK_DEADLOCK FALSE
