SPECIFICATION Spec
CONSTANTS Dims <- QDims
Subsets <- Subs
Seeds <- Sq
Kinds <- AllKinds
INVARIANTS Involution NonNegative Emit
CHECK_DEADLOCK FALSE
