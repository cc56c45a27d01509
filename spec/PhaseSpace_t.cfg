SPECIFICATION Spec
CONSTANTS DimsP <- DQ
SeedsP <- ST
Points <- PT
Trunc <- TQ
Limits <- NoLimits
StepsP <- StQ
INVARIANTS Rotation NonNegative Emit
CHECK_DEADLOCK FALSE
