----------------------------- MODULE Tolerance -----------------------------
(* What the two tolerances of an ODE engine mean, in octaves (powers of two).
   A trial step is made on a state whose component i has magnitude 2^y_i and local error 2^e_i.  The absolute tolerance is
   2^a, the relative one 2^r; NONE stands for an exact zero.  The step is accepted iff no component's error exceeds
   its bound  2^a + 2^r * magnitude.  Cases within the octave resolution of the bound are left out.
   Magnitude: the stepper may use the state before or after the step and may add |dt*derivative|, which for the
   right-hand side used (y' = K t^4) is at most 2^(e+11). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS As, Rs, Ys, Es, Scales, NComp, Engines, Ctors
NONE == -999
VARIABLES trial, verdict
vars == <<trial, verdict>>

Max(x,y) == IF x > y THEN x ELSE y
Rel(r, y) == IF r = NONE \/ y = NONE THEN NONE ELSE r + y
Bound(t, i) == Max(t.a, Rel(t.r, t.y[i]))                               \* at least 2^Bound
BoundUp(t, i) == Max(t.a, Rel(t.r, Max(t.y[i], t.e[i] + 11))) + 2       \* at most 2^BoundUp
Fits(t, i) == t.e[i] < Bound(t, i)
Exceeds(t, i) == t.e[i] > BoundUp(t, i)
Accepted(t) == \A i \in 1..NComp : Fits(t, i)
Rejected(t) == \E i \in 1..NComp : Exceeds(t, i)
Shift(x, k) == IF x = NONE THEN NONE ELSE x + k
Scaled(t, k) == [t EXCEPT !.y = [i \in 1..NComp |-> Shift(t.y[i], k)], !.e = [i \in 1..NComp |-> t.e[i] + k], !.a = Shift(t.a, k)]

Trials == [a : As, r : Rs, y : [1..NComp -> Ys], e : [1..NComp -> Es], engine : Engines, ctor : Ctors]
Init == /\ trial \in {t \in Trials : (t.a # NONE \/ t.r # NONE) /\ (Accepted(t) \/ Rejected(t))}
        /\ verdict = "none"
Next == /\ verdict = "none" /\ verdict' = (IF Accepted(trial) THEN "accepted" ELSE "rejected") /\ UNCHANGED trial
Spec == Init /\ [][Next]_vars

NotBoth == ~(Accepted(trial) /\ Rejected(trial))
\* scaling state, error and absolute tolerance together changes nothing
ScaleInvariant == \A k \in Scales : (Accepted(trial) <=> Accepted(Scaled(trial, k))) /\ (Rejected(trial) <=> Rejected(Scaled(trial, k)))
\* loosening either tolerance never turns acceptance into rejection
Monotone == \A k \in {1, 5} : Accepted(trial) => /\ Accepted([trial EXCEPT !.a = Shift(@, k)])
                                                /\ Accepted([trial EXCEPT !.r = Shift(@, k)])
Emit == verdict # "none" => CSVWrite("%1$s", <<ToJson([in |-> trial, exp |-> [rejected |-> verdict = "rejected", bounded |-> TRUE]])>>, IOEnv.OUT)
=============================================================================
