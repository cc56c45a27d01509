SPECIFICATION Spec
CONSTANTS
  Kinds = {"gsl", "mt", "pcg", "xoshiro"}
  Seeds = {5, 7, 1001}
  Archives = {"binary", "text"}
  MaxHist = 14
  Simulated = TRUE
INVARIANTS
  Consecutive
  Replayed
  Emit
CHECK_DEADLOCK FALSE
