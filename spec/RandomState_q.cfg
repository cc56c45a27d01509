SPECIFICATION Spec
CONSTANTS
  Kinds = {"gsl", "mt", "pcg", "xoshiro"}
  Seeds = {5, 1001}
  Archives = {"binary", "text"}
  MaxHist = 4
  Simulated = FALSE
INVARIANTS
  Consecutive
  Replayed
  Emit
CHECK_DEADLOCK FALSE
