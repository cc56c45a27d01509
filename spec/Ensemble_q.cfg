SPECIFICATION Spec
CONSTANTS
 GroupSets <- GQ
 Hs = {1, 2, 3}
 Advances = {1, 4}
 MaxOps = 4
INVARIANTS Together Emit
CHECK_DEADLOCK FALSE
