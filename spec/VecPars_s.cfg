SPECIFICATION Spec
CONSTANTS
  Kinds <- AllKinds
  MaxEdits = 3
  Simulated = TRUE
INVARIANTS
  ExactlyWellFormed
  Places
  UneditedAccepted
  Emit
CHECK_DEADLOCK FALSE
