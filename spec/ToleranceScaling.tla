-------------------------- MODULE ToleranceScaling --------------------------
(* Whole adaptive runs of a linear equation: multiplying the initial state and the absolute tolerance by the same power of two
   leaves every step unchanged, so the sequence of steps is a function of the orbit representative alone.
   A behaviour is a walk of scale changes applied to one run; the expectation is that nothing observable moves. *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS As, Rs, Ks, Systems, Engines, MaxWalk
NONE == -999
VARIABLES base, k, walk, hexp
vars == <<base, k, walk, hexp>>
Init == /\ base \in {b \in [a : As, r : Rs, sys : Systems, engine : Engines] : b.a # NONE \/ b.r # NONE}
        /\ k = 0 /\ walk = <<0>> /\ hexp = <<[class |-> 0]>>
Rescale == /\ Len(walk) < MaxWalk
           /\ \E d \in Ks : k' = k + d /\ walk' = Append(walk, k + d)
           /\ hexp' = Append(hexp, [class |-> 0])    \* same steps as the first run of the walk
           /\ UNCHANGED base
Next == Rescale
Spec == Init /\ [][Next]_vars
OneClass == \A i \in 1..Len(hexp) : hexp[i].class = hexp[1].class
Emit == Len(walk) = MaxWalk => CSVWrite("%1$s", <<ToJson([in |-> [base |-> base, walk |-> walk], exp |-> hexp])>>, IOEnv.OUT)
=============================================================================
