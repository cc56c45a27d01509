SPECIFICATION Spec
CONSTANTS
 Kinds <- KQ
 Modes = {"memory", "run"}
 Total = 5
 MaxCuts = 2
INVARIANTS NothingLost Emit
CHECK_DEADLOCK FALSE
