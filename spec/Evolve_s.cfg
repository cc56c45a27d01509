CONSTANTS
  Choices <- AtRandom
SPECIFICATION Spec
INVARIANTS TraceIsOne Unitary Populations Emit
CHECK_DEADLOCK FALSE
