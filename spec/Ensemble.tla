----------------------------- MODULE Ensemble -----------------------------
(* Ensembles (and ensembles of ensembles) of trajectories.  A member is a trajectory with a step size of its own; its state is the
   distance covered, weighted by its own speed, and the number of steps taken.  An ensemble has no state but that of its members. *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS GroupSets, Hs, Advances, MaxOps
VARIABLES groups, mem, hin, hexp
vars == <<groups, mem, hin, hexp>>
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE s[1] + SumS(Tail(s))
NMem == SumS(groups)
First(g) == 1 + SumS(SubSeq(groups, 1, g - 1))
Members(g) == First(g)..(First(g) + groups[g] - 1)
RECURSIVE SumOver(_, _, _)
SumOver(F(_), lo, hi) == IF lo > hi THEN 0 ELSE F(lo) + SumOver(F, lo + 1, hi)
\* 144 times the mean of the group means: 144 is divisible by every product of two group sizes up to 4 (and 3 groups of up to 2)
Mean(F(_)) == SumOver(LAMBDA g : (144 \div (groups[g] * Len(groups))) * SumOver(F, First(g), First(g) + groups[g] - 1), 1, Len(groups))
Steps(h, d) == (d + h - 1) \div h
Move(x, d) == [x EXCEPT !.t = @ + d, !.a = @ + d * x.v, !.n = @ + Steps(x.h, d), !.did = IF d % x.h = 0 THEN x.h ELSE d % x.h]
Obs == [t |-> mem'[1].t, members |-> [i \in 1..Len(mem') |-> <<mem'[i].t, mem'[i].a, mem'[i].n>>],
        a |-> Mean(LAMBDA i : mem'[i].a), n |-> Mean(LAMBDA i : mem'[i].n), did |-> Mean(LAMBDA i : mem'[i].did), name |-> Len(mem')]
Init == groups \in GroupSets /\ mem = <<>> /\ hin = <<>> /\ hexp = <<>>
Make == /\ mem = <<>>
        /\ \E hs \in [1..NMem -> Hs] : mem' = [i \in 1..NMem |-> [h |-> hs[i], v |-> 2 * i - 5, t |-> 0, a |-> i * i, n |-> 0, did |-> 0]]
        /\ UNCHANGED <<groups, hin, hexp>>
Advance == /\ mem # <<>> /\ Len(hin) < MaxOps
           /\ \E d \in Advances : mem' = [i \in 1..Len(mem) |-> Move(mem[i], d)] /\ hin' = Append(hin, [op |-> "advance", d |-> d])
           /\ hexp' = Append(hexp, Obs) /\ UNCHANGED groups
\* saved and restored into an ensemble of the same make-up in which every member is elsewhere
Restore == /\ mem # <<>> /\ Len(hin) < MaxOps /\ hin # <<>> /\ hin[Len(hin)].op = "advance"
           /\ mem' = mem /\ hin' = Append(hin, [op |-> "restore"]) /\ hexp' = Append(hexp, Obs) /\ UNCHANGED groups
Next == Make \/ Advance \/ Restore
Spec == Init /\ [][Next]_vars
Together == \A i, j \in 1..Len(mem) : mem[i].t = mem[j].t
Emit == (Len(hin) = MaxOps) => CSVWrite("%1$s", <<ToJson([in |-> [groups |-> groups, hs |-> [i \in 1..Len(mem) |-> mem[i].h], ops |-> hin], exp |-> [obs |-> hexp]])>>, IOEnv.OUT)
=============================================================================
