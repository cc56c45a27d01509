SPECIFICATION Spec
CONSTANTS Layouts <- AllLayouts
Configs <- SimSys
MaxOps = 2
SDepth = 3
INVARIANTS DisjointCommute EmitC10
CHECK_DEADLOCK FALSE
