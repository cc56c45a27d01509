SPECIFICATION Spec
CONSTANTS
  Oscillators <- AllOscillators
  Starts <- AllStarts
  Jumps <- AllJumps
  Data <- AllData
  MaxHist = 8
  Simulated = TRUE
INVARIANTS
  Closed
  Critical
  Velocity
  Emit
CHECK_DEADLOCK FALSE
