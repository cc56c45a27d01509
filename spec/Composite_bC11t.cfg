SPECIFICATION Spec
CONSTANTS Layouts <- AllLayouts
Configs <- TBinary
MaxOps = 1
SDepth = 1
INVARIANTS RatesAreNorms RatesAreTraces EmitC11
CHECK_DEADLOCK FALSE
