SPECIFICATION Spec
CONSTANTS
  Oscillators <- AllOscillators
  Starts <- FewStarts
  Jumps <- FewJumps
  Data <- FewData
  MaxHist = 2
  Simulated = FALSE
INVARIANTS
  Closed
  Critical
  Velocity
  Emit
CHECK_DEADLOCK FALSE
