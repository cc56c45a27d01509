SPECIFICATION Spec
CONSTANTS
 Unaries <- Furn2
 Scalars <- NoSc
 Gens <- GensTwo
 Times <- T2
 UnOps <- URot
 BinOps <- BAll
 Sigs <- NoSig
 MaxSig = 0
 MaxOps = 6
 MaxStack = 2
 MaxRank = 2
 MaxDim = 9
 Shift = 6
INVARIANTS Structured Involution DiagonalStays Emit
CHECK_DEADLOCK FALSE
