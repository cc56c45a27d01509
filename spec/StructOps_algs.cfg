SPECIFICATION Spec
CONSTANTS
 Unaries <- Dim23
 Scalars <- Sc
 Gens <- NoGens
 Times <- NoTimes
 UnOps <- UAlg
 BinOps <- BAll
 Sigs <- NoSig
 MaxSig = 0
 MaxOps = 9
 MaxStack = 3
 MaxRank = 4
 MaxDim = 24
 Shift = 0
INVARIANTS Structured Involution DiagonalStays Emit
CHECK_DEADLOCK FALSE
