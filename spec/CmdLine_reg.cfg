SPECIFICATION Spec
CONSTANTS
 RegOps <- RegSet
 MaxReg = 3
 MaxWords = 2
 MaxLines = 1
 Lively = FALSE
 Words <- RegW
 Fixed <- NoFix
INVARIANTS NamesUnique Total OnlyMentioned Emit
CHECK_DEADLOCK FALSE
