------------------------------ MODULE Resume ------------------------------
(* Interrupting and resuming.  What a trajectory will output is a function of its kind and of the intervals it was advanced over,
   whatever it was saved to and restored from in between: the saved state determines the whole future.  The uninterrupted run is the
   reference; at every interruption point and afterwards the interrupted one must be indistinguishable from it. *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Kinds, Modes, Total, MaxCuts
VARIABLES kind, mode, done, image, cuts, hin
\* done: intervals covered so far; image: what the newest process image was started from; cuts: interruptions so far
vars == <<kind, mode, done, image, cuts, hin>>
Allowed(k, m) == m = "memory" \/ k.engine = "boost" \/ k.traj = "sim"
Init == kind \in Kinds /\ mode \in Modes /\ Allowed(kind, mode) /\ done = 0 /\ image = 0 /\ cuts = 0 /\ hin = <<>>
Advance == /\ done < Total /\ \E n \in 1..(Total - done) : done' = done + n /\ hin' = Append(hin, n) /\ (hin = <<>> \/ image = done)
           /\ UNCHANGED <<kind, mode, image, cuts>>
Interrupt == /\ done > image /\ done < Total /\ cuts < MaxCuts /\ image' = done /\ cuts' = cuts + 1 /\ UNCHANGED <<kind, mode, done, hin>>
Next == Advance \/ Interrupt
Spec == Init /\ [][Next]_vars
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE s[1] + SumS(Tail(s))
NothingLost == SumS(hin) = done /\ image <= done
Emit == (done = Total) => CSVWrite("%1$s", <<ToJson([in |-> [kind |-> kind, mode |-> mode, parts |-> hin], exp |-> [same |-> [i \in 1..Len(hin) |-> "as without interruption"]]])>>, IOEnv.OUT)
=============================================================================
