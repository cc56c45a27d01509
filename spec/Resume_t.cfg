SPECIFICATION Spec
CONSTANTS
 Kinds <- KQ
 Modes = {"memory", "run"}
 Total = 8
 MaxCuts = 3
INVARIANTS NothingLost Emit
CHECK_DEADLOCK FALSE
