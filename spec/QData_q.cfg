SPECIFICATION Spec
CONSTANTS Starts <- QStarts
Seeds = {3}
Ops <- AllOps
Orders <- Ordered
MaxOps = 2
INVARIANTS HermitianAlways TraceIsReal ReduceKeepsTrace ReduceTwice FourierUndone Emit
CHECK_DEADLOCK FALSE
