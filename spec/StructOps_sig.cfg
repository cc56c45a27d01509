SPECIFICATION Spec
CONSTANTS
 Unaries <- Dim23
 Scalars <- NoSc
 Gens <- NoGens
 Times <- NoTimes
 UnOps <- UNone
 BinOps <- BKron
 Sigs <- AllSigs
 MaxSig = 2
 MaxOps = 3
 MaxStack = 2
 MaxRank = 2
 MaxDim = 36
 Shift = 0
INVARIANTS Structured Involution DiagonalStays Emit
CHECK_DEADLOCK FALSE
