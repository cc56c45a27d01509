SPECIFICATION Spec
CONSTANTS
 RegOps <- RegSet
 MaxReg = 0
 MaxWords = 9
 MaxLines = 3
 Lively = TRUE
 Words <- FullW
 Fixed <- Fix
INVARIANTS NamesUnique Total OnlyMentioned Emit
CHECK_DEADLOCK FALSE
