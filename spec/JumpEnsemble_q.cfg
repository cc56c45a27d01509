SPECIFICATION Spec
CONSTANTS
 Sizes = {1, 2}
 Systems <- SQ
 Firsts <- FQ
 Draws <- D3
 MaxOps = 2
 Pick <- PickAll
INVARIANTS TraceIsOne Emit
CHECK_DEADLOCK FALSE
