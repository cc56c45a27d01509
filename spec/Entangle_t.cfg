SPECIFICATION Spec
CONSTANTS Dims <- QDims
Subsets <- Subs
Seeds <- St
Kinds <- AllKinds
INVARIANTS Involution NonNegative Emit
CHECK_DEADLOCK FALSE
