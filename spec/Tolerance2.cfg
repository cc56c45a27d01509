SPECIFICATION Spec
CONSTANTS
 As <- T_As
 Rs <- T_Rs
 Ys <- T_Ys
 Es <- T_Es
 Scales <- Q_Scales
 NComp = 2
 Engines = {"boost", "gsl"}
 Ctors = {"args", "pars"}
INVARIANTS NotBoth ScaleInvariant Monotone Emit
CHECK_DEADLOCK FALSE
