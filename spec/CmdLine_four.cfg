SPECIFICATION Spec
CONSTANTS
 RegOps <- RegSet
 MaxReg = 0
 MaxWords = 4
 MaxLines = 1
 Lively = FALSE
 Words <- SmallW
 Fixed <- Fix
INVARIANTS NamesUnique Total OnlyMentioned Emit
CHECK_DEADLOCK FALSE
