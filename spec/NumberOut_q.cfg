SPECIFICATION Spec
CONSTANTS
 Precs <- Q_Precs
 Exps <- Q_Exps
 Digits <- Q_Digits
 Signs = {FALSE, TRUE}
 MaxCols = 1
 Forms <- Q_Forms
 KeySizes = {0, 1, 2, 5}
 Starts = {1, 3, 8, 99}
 MaxKeys = 3
INVARIANTS Separated Emit
CHECK_DEADLOCK FALSE
