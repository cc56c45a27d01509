SPECIFICATION Spec
CONSTANTS
 As <- Q_As
 Rs <- Q_Rs
 Ks <- Q_Ks
 Systems = {0, 1, 2, 3}
 Engines = {"boost", "gsl"}
 MaxWalk = 3
INVARIANTS OneClass Emit
CHECK_DEADLOCK FALSE
