SPECIFICATION Spec
CONSTANTS
 RegOps <- RegSet
 MaxReg = 0
 MaxWords = 2
 MaxLines = 2
 Lively = FALSE
 Words <- SmallW
 Fixed <- Fix
INVARIANTS NamesUnique Total OnlyMentioned Emit
CHECK_DEADLOCK FALSE
