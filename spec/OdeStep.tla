------------------------------ MODULE OdeStep ------------------------------
(* The adaptive-stepping protocol: one engine object carrying (dtTry, dtDid, statistics) and an arbitrary
   error-controlled stepper.  The stepper is the environment: for every attempt it either rejects, halving the
   step, or accepts, advancing time by the attempted step and suggesting a new one (a growth factor num/den).
   Time is measured in integer ticks.  Actions: Step (one call of the engine), BeginAdvance/AdvanceStep
   (reach a given time through steps). *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils

CONSTANTS DtInits,      \* possible initial step sizes (positive ticks)
          Deltas,       \* possible requested intervals for a single step (nonzero ticks, either sign)
          Advances,     \* possible intervals for advance
          Growths,      \* growth factors <<num,den>> suggested on acceptance
          MaxFail,      \* maximal number of rejected attempts per step
          MaxCalls,     \* length of a history
          MaxMicro      \* maximal number of steps within one advance

VARIABLES t, dtTry, dtDid, nSteps, nFailed, nDerivs,
          target,       \* <<>> or <<end time>> while inside an advance
          micro,        \* steps taken in the current advance
          last,         \* what the last engine step did (observation for the properties)
          hin, hexp     \* history of inputs and of expected observations
vars == <<t, dtTry, dtDid, nSteps, nFailed, nDerivs, target, micro, last, hin, hexp>>

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Pow2(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 2 ELSE IF n = 2 THEN 4 ELSE 8

\* ---- the engine's policy -------------------------------------------------------------------------------
Tiny(d) == 10 * Abs(d) < Abs(dtTry)                    \* excluded from step-size control
Redirected(d) == IF Sgn(d) = Sgn(dtTry) THEN dtTry
                 ELSE Sgn(d) * Abs(IF dtDid # 0 THEN dtDid ELSE dtTry)   \* turning around: with the last step taken
Attempt(d) == IF Abs(Redirected(d)) > Abs(d) THEN d ELSE Redirected(d)   \* never beyond the requested interval

\* one engine step: f rejected attempts (attempt number a evaluates the right-hand side a times), then acceptance with growth g
CanStep(d, f, g) == /\ Attempt(d) % Pow2(f) = 0
                    /\ ((Attempt(d) \div Pow2(f)) * g[1]) % g[2] = 0
                    /\ Abs(Attempt(d) \div Pow2(f)) * g[1] < 1000000
DoStep(d, f, g) ==
  LET did == Attempt(d) \div Pow2(f) IN
  /\ CanStep(d, f, g)
  /\ t' = t + did
  /\ dtDid' = did
  /\ dtTry' = IF Tiny(d) THEN dtTry ELSE (did * g[1]) \div g[2]
  /\ nSteps' = nSteps + 1
  /\ nFailed' = nFailed + f
  /\ nDerivs' = nDerivs + ((f + 1) * (f + 2)) \div 2
  /\ last' = [d |-> d, did |-> did, tiny |-> Tiny(d), before |-> dtTry, t0 |-> t, f |-> f]

Obs == [t |-> t', did |-> dtDid', try |-> dtTry', s |-> nSteps', f |-> nFailed', c |-> nDerivs', y |-> t', cok |-> TRUE, left |-> 0]

Init == /\ t = 0 /\ dtDid = 0 /\ nSteps = 0 /\ nFailed = 0 /\ nDerivs = 0 /\ target = <<>> /\ micro = 0 /\ last = [d |-> 0]
        /\ dtTry \in DtInits
        /\ hin = <<[op |-> "init", dt |-> dtTry]>> /\ hexp = <<[try |-> dtTry]>>

Step == /\ target = <<>> /\ Len(hin) <= MaxCalls
        /\ \E d \in Deltas, f \in 0..MaxFail, g \in Growths :
             /\ DoStep(d, f, g)
             /\ hin' = Append(hin, [op |-> "step", d |-> d, f |-> f, g |-> g])
             /\ hexp' = Append(hexp, Obs)
        /\ UNCHANGED <<target, micro>>

BeginAdvance == /\ target = <<>> /\ Len(hin) <= MaxCalls
                /\ \E d \in Advances : target' = <<t + d>> /\ hin' = Append(hin, [op |-> "adv", d |-> d, fs |-> <<>>, gs |-> <<>>])
                /\ hexp' = Append(hexp, [t |-> target'[1]]) /\ micro' = 0
                /\ UNCHANGED <<t, dtTry, dtDid, nSteps, nFailed, nDerivs, last>>

AdvanceStep == /\ target # <<>> /\ micro < MaxMicro /\ t # target[1]
               /\ \E f \in 0..MaxFail, g \in Growths :
                    /\ DoStep(target[1] - t, f, g)
                    /\ hin' = [hin EXCEPT ![Len(hin)] = [@ EXCEPT !.fs = Append(@, f), !.gs = Append(@, g)]]
               /\ hexp' = [hexp EXCEPT ![Len(hexp)] = Obs]
               /\ micro' = micro + 1
               /\ UNCHANGED target

EndAdvance == /\ target # <<>> /\ t = target[1] /\ target' = <<>> /\ micro' = 0
              /\ UNCHANGED <<t, dtTry, dtDid, nSteps, nFailed, nDerivs, last, hin, hexp>>

Next == Step \/ BeginAdvance \/ AdvanceStep \/ EndAdvance
Spec == Init /\ [][Next]_vars

\* ---- properties ----------------------------------------------------------------------------------------
TypeOK == dtTry # 0 /\ nSteps >= 0
NeverBeyond == last.d # 0 => /\ Abs(last.did) <= Abs(last.d)
                             /\ Sgn(last.did) = Sgn(last.d)
                             /\ last.did # 0
HonestDtDid == last.d # 0 => t = last.t0 + last.did /\ dtDid = last.did
TinyStepsHarmless == (last.d # 0 /\ last.tiny) => dtTry = last.before
NoPassing == target # <<>> /\ micro > 0 => Sgn(target[1] - t) = Sgn(last.d) \/ t = target[1]
\* progress: an advance whose attempts are all accepted and not shrunk ends
Complete == Len(hin) > MaxCalls /\ target = <<>>
Emit == Complete => CSVWrite("%1$s", <<ToJson([in |-> hin, exp |-> hexp])>>, IOEnv.OUT)
=============================================================================
