SPECIFICATION Spec
CONSTANTS
 Unaries <- Furn
 Scalars <- Sc1
 Gens <- GensAll
 Times <- T2
 UnOps <- URot
 BinOps <- BAll
 Sigs <- NoSig
 MaxSig = 0
 MaxOps = 4
 MaxStack = 2
 MaxRank = 2
 MaxDim = 9
 Shift = 4
INVARIANTS Structured Involution DiagonalStays Emit
CHECK_DEADLOCK FALSE
