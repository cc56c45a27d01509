SPECIFICATION Spec
CONSTANTS
  Kinds <- AllKinds
  MaxEdits = 1
  Simulated = FALSE
INVARIANTS
  ExactlyWellFormed
  Places
  UneditedAccepted
  Emit
CHECK_DEADLOCK FALSE
