SPECIFICATION Spec
CONSTANTS
 As <- Q_As
 Rs <- Q_Rs
 Ys <- Q_Ys
 Es <- Q_Es
 Scales <- Q_Scales
 NComp = 1
 Engines = {"boost", "gsl"}
 Ctors = {"args", "pars"}
INVARIANTS NotBoth ScaleInvariant Monotone Emit
CHECK_DEADLOCK FALSE
