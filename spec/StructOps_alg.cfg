SPECIFICATION Spec
CONSTANTS
 Unaries <- Few
 Scalars <- Sc1
 Gens <- NoGens
 Times <- NoTimes
 UnOps <- UAlg
 BinOps <- BAll
 Sigs <- NoSig
 MaxSig = 0
 MaxOps = 4
 MaxStack = 2
 MaxRank = 2
 MaxDim = 9
 Shift = 0
INVARIANTS Structured Involution DiagonalStays Emit
CHECK_DEADLOCK FALSE
