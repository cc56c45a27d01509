SPECIFICATION Spec
CONSTANTS
 Precs <- Q_Precs
 Exps <- S_Exps
 Digits <- Q_Digits
 Signs = {FALSE, TRUE}
 MaxCols = 8
 Forms <- Q_Forms
 KeySizes = {0, 1, 2, 5}
 Starts = {1, 3, 8, 99}
 MaxKeys = 6
INVARIANTS Separated Emit
CHECK_DEADLOCK FALSE
