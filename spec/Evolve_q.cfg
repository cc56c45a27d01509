CONSTANTS
  Choices <- Quick
SPECIFICATION Spec
INVARIANTS TraceIsOne Unitary Populations Emit
CHECK_DEADLOCK FALSE
