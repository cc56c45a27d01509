SPECIFICATION Spec
CONSTANTS
 GroupSets <- GT
 Hs = {1, 3}
 Advances = {1, 3, 4}
 MaxOps = 5
INVARIANTS Together Emit
CHECK_DEADLOCK FALSE
