--------------------------- MODULE JumpEnsemble ---------------------------
(* Ensembles of quantum-jump trajectories.  Member i draws from stream (first + i - 1) of the seed; every advance is one step of all
   members, in which member i jumps or not according to the number its stream yields.  The state of the ensemble is the mean of the
   projectors of its members. *)
EXTENDS TrajSys, TLC, Json, CSV, IOUtils
CONSTANTS Sizes, Systems, Firsts, Draws, MaxOps, Pick(_)
VARIABLES sys, m, first, tab, mem, hin, hexp
vars == <<sys, m, first, tab, mem, hin, hexp>>
Dt == <<1, 40>>
N2(v) == ISum(LAMBDA x : Abs2(v[x]), 1, Len(v))
RECURSIVE VGcd(_, _)
VGcd(v, x) == IF x > Len(v) THEN 0 ELSE Gcd(Gcd(Abs(v[x][1]), Abs(v[x][2])), VGcd(v, x + 1))
Reduce(v) == LET g == VGcd(v, 1) IN IF g <= 1 THEN v ELSE [x \in 1..Len(v) |-> <<v[x][1] \div g, v[x][2] \div g>>]
J(v, c, t) == OnVec(OpJ(sys.s, Len(v), c, t), v)
RECURSIVE Cum(_, _, _)
Cum(v, c, t) == IF c = 0 THEN RZero ELSE RAdd(Cum(v, c - 1, t), RMul(Dt, RRed(<<N2(J(v, c, t)), N2(v)>>)))
Chosen(v, r, t) == IF ~RLt(r, Cum(v, sys.li, t)) THEN 0 ELSE CHOOSE c \in 1..sys.li : RLt(r, Cum(v, c, t)) /\ ~RLt(r, Cum(v, c - 1, t))
Edge(v, r, t) == \E c \in 1..sys.li : Cum(v, c, t) = r
Lcm(a, b) == (a \div Gcd(a, b)) * b
RECURSIVE LcmAll(_, _)
LcmAll(s, i) == IF i > Len(s) THEN 1 ELSE Lcm(N2(s[i].v), LcmAll(s, i + 1))
RECURSIVE SumM(_, _, _)
SumM(s, i, L) == IF i > Len(s) THEN [x \in 1..2 |-> [y \in 1..2 |-> Zero]] ELSE MAdd(MMul(<<L \div N2(s[i].v), 0>>, Dyad(s[i].v, s[i].v)), SumM(s, i + 1, L))
\* the mean of the projectors, times m and times the common denominator
Obs(s, t, n) == LET L == LcmAll(s, 1) IN [t |-> t, rho |-> SumM(s, 1, L), jumps |-> ISum(LAMBDA i : s[i].jumps, 1, Len(s)), steps |-> n, psi |-> "as given"]
V0 == << <<1, 0>>, <<1, 1>> >>
Init == /\ sys \in Systems /\ m \in Sizes /\ first \in Firsts /\ tab = <<>> /\ mem = <<>> /\ hin = <<>> /\ hexp = <<>>
Make == /\ mem = <<>> /\ \E r \in Pick([1..m -> [1..MaxOps -> Draws]]) : tab' = r
        /\ mem' = [i \in 1..m |-> [v |-> V0, jumps |-> 0]] /\ hexp' = <<Obs(mem', RZero, 0)>> /\ UNCHANGED <<sys, m, first, hin>>
Advance == /\ mem # <<>> /\ Len(hin) < MaxOps
           /\ LET k == Len(hin) + 1 t == RMul(<<k, 1>>, Dt) IN
              /\ ~Tie(t) /\ \A i \in 1..m : ~Edge(mem[i].v, tab[i][k], t) /\ N2(mem[i].v) < 60
              /\ mem' = [i \in 1..m |-> LET c == Chosen(mem[i].v, tab[i][k], t) IN
                         IF c = 0 THEN mem[i] ELSE [v |-> Reduce(J(mem[i].v, c, t)), jumps |-> mem[i].jumps + 1]]
              /\ LcmAll(mem', 1) < 100000
              /\ hexp' = Append(hexp, Obs(mem', t, k)) /\ hin' = Append(hin, "advance")
           /\ UNCHANGED <<sys, m, first, tab>>
Next == Make \/ Advance
Spec == Init /\ [][Next]_vars
TraceIsOne == hexp # <<>> => \A i \in 1..Len(hexp) : Trace(hexp[i].rho)[1] % m = 0 /\ Hermitian(hexp[i].rho)
Emit == (Len(hin) = MaxOps) => CSVWrite("%1$s", <<ToJson([in |-> [sys |-> sys, m |-> m, first |-> first, tab |-> tab, ops |-> hin, dt |-> Dt,
          tr |-> [i \in 1..Len(hexp) |-> Trace(hexp[i].rho)[1]]], exp |-> [obs |-> hexp]])>>, IOEnv.OUT)
=============================================================================
