SPECIFICATION Spec
CONSTANTS
 Sizes = {2, 3, 4}
 Systems <- SQ
 Firsts <- FQ
 Draws <- D3
 MaxOps = 4
 Pick <- PickOne
INVARIANTS TraceIsOne Emit
CHECK_DEADLOCK FALSE
