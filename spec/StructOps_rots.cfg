SPECIFICATION Spec
CONSTANTS
 Unaries <- Furn
 Scalars <- Sc1
 Gens <- GensAll
 Times <- T3
 UnOps <- URotAll
 BinOps <- BAll
 Sigs <- NoSig
 MaxSig = 0
 MaxOps = 12
 MaxStack = 3
 MaxRank = 3
 MaxDim = 18
 Shift = 8
INVARIANTS Structured Involution DiagonalStays Emit
CHECK_DEADLOCK FALSE
