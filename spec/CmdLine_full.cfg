SPECIFICATION Spec
CONSTANTS
 RegOps <- RegSet
 MaxReg = 0
 MaxWords = 3
 MaxLines = 1
 Lively = FALSE
 Words <- FullW
 Fixed <- Fix
INVARIANTS NamesUnique Total OnlyMentioned Emit
CHECK_DEADLOCK FALSE
