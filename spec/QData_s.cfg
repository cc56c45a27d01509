SPECIFICATION Spec
CONSTANTS Starts <- TStarts
Seeds = {3}
Ops <- AllOps
Orders <- Ordered
MaxOps = 4
INVARIANTS HermitianAlways TraceIsReal ReduceKeepsTrace ReduceTwice FourierUndone Emit
CHECK_DEADLOCK FALSE
