SPECIFICATION Spec
CONSTANTS
 Unaries <- AllLengths
 Scalars <- NoSc
 Gens <- NoGens
 Times <- NoTimes
 UnOps <- UFew
 BinOps <- BKron
 Sigs <- NoSig
 MaxSig = 0
 MaxOps = 2
 MaxStack = 1
 MaxRank = 1
 MaxDim = 6
 Shift = 0
INVARIANTS Structured Involution DiagonalStays Emit
CHECK_DEADLOCK FALSE
