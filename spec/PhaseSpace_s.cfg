SPECIFICATION Spec
CONSTANTS DimsP <- DQ
SeedsP <- ST2
Points <- PQ
Trunc <- TS
Limits <- LQ
StepsP <- StQ
INVARIANTS Rotation NonNegative Emit
CHECK_DEADLOCK FALSE
