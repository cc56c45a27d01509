SPECIFICATION Spec
CONSTANTS Layouts <- AllLayouts
Configs <- SimSys
MaxOps = 2
SDepth = 3
INVARIANTS RatesAreNorms RatesAreTraces EmitC11
CHECK_DEADLOCK FALSE
