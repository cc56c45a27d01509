---------------------------- MODULE RandomState ----------------------------
(* Random engines as sequences: an engine is where it stands in the sequence belonging to its seed.  Drawing and filling arrays move it on, saving
   leaves it where it is, and an engine into which a saved state is loaded continues from there, whatever it did before and whichever engine
   saved it.  A number is identified by the seed and its place in the sequence. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Kinds, Seeds, Archives, MaxHist, Simulated
VARIABLES pc, kind, ini, at, slot, hist, seen
vars == <<pc, kind, ini, at, slot, hist, seen>>
Pick(S) == IF Simulated THEN {RandomElement(S)} ELSE S
Nothing == [s |-> 0, n |-> 0, ar |-> "none"]
Init == pc = "choose" /\ kind = "none" /\ ini = <<>> /\ at = <<>> /\ slot = Nothing /\ hist = <<>> /\ seen = <<>>
Start == /\ pc = "choose"
         /\ \E k \in Pick(Kinds), a \in Pick(Seeds), b \in Pick(Seeds) : a # b /\ kind' = k /\ ini' = <<a, b>> /\ at' = <<[s |-> a, n |-> 0], [s |-> b, n |-> 0]>>
         /\ pc' = "run" /\ UNCHANGED <<slot, hist, seen>>
Going == pc = "run" /\ Len(hist) < MaxHist
Numbers(e, k) == [i \in 1..k |-> [s |-> at[e].s, n |-> at[e].n + i]]
Take(how, e, k) == /\ Going /\ hist' = Append(hist, [op |-> how, e |-> e, k |-> k]) /\ seen' = Append(seen, Numbers(e, k))
                   /\ at' = [at EXCEPT ![e].n = @ + k] /\ UNCHANGED <<pc, kind, ini, slot>>
Save(e, ar) == /\ Going /\ hist' = Append(hist, [op |-> "save", e |-> e, ar |-> ar]) /\ slot' = [s |-> at[e].s, n |-> at[e].n, ar |-> ar]
               /\ UNCHANGED <<pc, kind, ini, at, seen>>
Load(e) == /\ Going /\ slot # Nothing /\ hist' = Append(hist, [op |-> "load", e |-> e]) /\ at' = [at EXCEPT ![e] = [s |-> slot.s, n |-> slot.n]]
           /\ UNCHANGED <<pc, kind, ini, slot, seen>>
Reseed(e, s) == /\ Going /\ hist' = Append(hist, [op |-> "seed", e |-> e, s |-> s]) /\ at' = [at EXCEPT ![e] = [s |-> s, n |-> 0]]
                /\ UNCHANGED <<pc, kind, ini, slot, seen>>
Next == \/ Start
        \/ \E e \in Pick({1, 2}), k \in Pick({1, 3}), how \in Pick({"draw", "fill"}) : Take(how, e, k)
        \/ \E e \in Pick({1, 2}), ar \in Pick(Archives) : Save(e, ar)
        \/ \E e \in Pick({1, 2}) : Load(e)
        \/ \E e \in Pick({1, 2}), s \in Pick(Seeds) : kind = "gsl" /\ Reseed(e, s)
Spec == Init /\ [][Next]_vars
\* no number is skipped or repeated by an engine except through loading or seeding
Consecutive == \A i \in 1..Len(seen) : \A j \in 1..(Len(seen[i]) - 1) : seen[i][j+1] = [seen[i][j] EXCEPT !.n = @ + 1]
\* what is loaded twice continues alike
Replayed == \A i, j \in 1..Len(hist) : i < j /\ hist[i].op = "load" /\ hist[j].op = "load" /\ hist[i].e = hist[j].e /\ j = Len(hist)
              /\ (\A m \in i..j : hist[m].op # "save") => at[hist[j].e] = [s |-> slot.s, n |-> slot.n]
Worth == seen # <<>> /\ hist[Len(hist)].op \in {"draw", "fill"}
Emit == (pc = "run" /\ (IF Simulated THEN Len(hist) = MaxHist ELSE Len(hist) > 0) /\ Worth) =>
  CSVWrite("%1$s", <<ToJson([in |-> [engine |-> kind, ini |-> ini, hist |-> hist], exp |-> [seen |-> seen]])>>, IOEnv.OUT)
=============================================================================
