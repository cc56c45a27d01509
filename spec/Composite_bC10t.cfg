SPECIFICATION Spec
CONSTANTS Layouts <- AllLayouts
Configs <- TBinary
MaxOps = 1
SDepth = 1
INVARIANTS DisjointCommute EmitC10
CHECK_DEADLOCK FALSE
