SPECIFICATION Spec
CONSTANTS DimsP <- DQ
SeedsP <- SQ
Points <- PQ
Trunc <- TQ
Limits <- NoLimits
StepsP <- StQ
INVARIANTS Rotation NonNegative Emit
CHECK_DEADLOCK FALSE
