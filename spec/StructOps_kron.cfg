SPECIFICATION Spec
CONSTANTS
 Unaries <- Dim2
 Scalars <- NoSc
 Gens <- NoGens
 Times <- NoTimes
 UnOps <- UNone
 BinOps <- BKron
 Sigs <- NoSig
 MaxSig = 0
 MaxOps = 7
 MaxStack = 3
 MaxRank = 4
 MaxDim = 16
 Shift = 0
INVARIANTS Structured Involution DiagonalStays Emit
CHECK_DEADLOCK FALSE
