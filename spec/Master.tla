------------------------------ MODULE Master ------------------------------
(* Master-equation trajectories.  The density operator is a Hermitian matrix of Gaussian integers known up to a positive factor
   (it is renormalised to unit trace).  The ODE engine is an environment: it decides about the step sizes (f, g), and over a step
   beginning at t it adds the right-hand side once.  The right-hand side is the Hamiltonian term plus its conjugate plus every
   channel (through its superoperator, or by its jump from both sides if it has none); the exact part acts from both sides. *)
EXTENDS TrajSys, TLC, Json, CSV, IOUtils
CONSTANTS DimsSet, Seeds, ChannelSets, Specials, Caps, Dts, Fs, Gs, DtInits, MaxOps, WithResume, Pick(_)
VARIABLES sys, st, hin, hexp
vars == <<sys, st, hin, hexp>>
N == Prod(sys.dims)
RECURSIVE MGcd(_, _, _)
MGcd(m, x, y) == IF x > Len(m) THEN 0 ELSE IF y > Len(m) THEN MGcd(m, x + 1, 1) ELSE Gcd(Gcd(Abs(m[x][y][1]), Abs(m[x][y][2])), MGcd(m, x, y + 1))
Reduce(m) == LET g == MGcd(m, 1, 1) h == IF Trace(m)[1] < 0 THEN -1 ELSE 1 IN
   [x \in 1..Len(m) |-> [y \in 1..Len(m) |-> <<h * (m[x][y][1] \div g), h * (m[x][y][2] \div g)>>]]
RECURSIVE Channels(_, _, _)
Channels(m, c, t) == IF c = 0 THEN [x \in 1..Len(m) |-> [y \in 1..Len(m) |-> Zero]] ELSE MAdd(Channels(m, c - 1, t), BothSides(OpJ(sys.s, Len(m), c, t), m))
Nch == IF sys.li = -1 THEN 0 ELSE sys.li
Rhs(m, t, t0) == LET h == FromLeft(OpH(sys.s, Len(m), t, t0), m) IN
   MAdd(IF sys.ha THEN MAdd(h, HConj(h)) ELSE Channels(m, 0, t), Channels(m, Nch, t))
Fine(r) == r[1] <= 20000 /\ r[2] <= 20000
Small(m) == \A x \in 1..Len(m) : \A y \in 1..Len(m) : Abs(m[x][y][1]) < 200000 /\ Abs(m[x][y][2]) < 200000
VecFor(n) == [x \in 1..n |-> <<(x % 3) - (IF x = 4 THEN 0 ELSE 1), IF x % 2 = 0 THEN 1 ELSE 0>>]
Rhos(n) == LET a == [x \in 1..n |-> IF x = 1 THEN <<1, 0>> ELSE IF x = 2 THEN <<0, 1>> ELSE Zero] b == VecFor(n) IN
   {[kind |-> "vec", v |-> b, m |-> Reduce(Dyad(b, b))], [kind |-> "mat", v |-> a, m |-> Reduce(MAdd(Dyad(a, a), MAdd(Dyad(b, b), Dyad(b, b))))]}
Obs(s) == [t |-> s.t, did |-> s.did, rho |-> s.rho]
Init == /\ sys \in {[dims |-> d, s |-> s, li |-> li, special |-> sp, ex |-> cp[1], ha |-> cp[2], mas |-> mas, fit |-> fit] :
                    d \in DimsSet, s \in Seeds, li \in ChannelSets, sp \in Specials, cp \in Caps, mas \in BOOLEAN, fit \in BOOLEAN}
        /\ (sys.li <= 0 => sys.special = 0) /\ (sys.mas \/ sys.fit)
        /\ st = [made |-> FALSE] /\ hin = <<>> /\ hexp = <<>>
Make == /\ ~st.made /\ hexp = <<>>
        /\ \E r \in Pick(Rhos(N)), d \in Pick(DtInits) :
             IF sys.fit /\ (sys.ex => sys.mas)
             THEN /\ st' = [made |-> TRUE, t |-> RZero, t0 |-> RZero, did |-> RZero, try |-> d, rho |-> r.m, rho0 |-> r, init |-> d]
                  /\ hexp' = <<Obs(st')>>
             ELSE /\ st' = [made |-> FALSE, rho0 |-> r, init |-> d]     \* refused
                  /\ hexp' = <<[refused |-> IF sys.ex /\ ~sys.mas THEN "SystemNotApplicable" ELSE "DimensionalityMismatch"]>>
        /\ UNCHANGED <<sys, hin>>
Step == /\ st.made /\ Len(hin) < MaxOps
        /\ \E Dt \in Pick(Dts), f \in Pick(Fs), g \in Pick(Gs) :
            LET did == RMul(RMin(st.try, Dt), f)
                t1 == RAdd(st.t, did)
                m1 == MAdd(st.rho, Rhs(st.rho, st.t, st.t0))
                m2 == IF sys.ex THEN BothSides(OpU(sys.s, N, t1, st.t0), m1) ELSE m1 IN
            /\ Fine(did) /\ Fine(t1) /\ ~Tie(t1) /\ Small(m2) /\ Trace(m2)[1] # 0
            /\ st' = [st EXCEPT !.t = t1, !.t0 = IF sys.ex THEN t1 ELSE st.t0, !.did = did, !.try = RMul(did, g), !.rho = Reduce(m2)]
            /\ hin' = Append(hin, [op |-> "step", Dt |-> Dt, f |-> f, g |-> g])
        /\ hexp' = Append(hexp, Obs(st')) /\ UNCHANGED sys
Resume == /\ WithResume /\ st.made /\ hin # <<>> /\ hin[Len(hin)].op = "step" /\ Len(hin) < MaxOps
          /\ hin' = Append(hin, [op |-> "resume"]) /\ hexp' = Append(hexp, Obs(st)) /\ UNCHANGED <<sys, st>>
Next == Make \/ Step \/ Resume
Spec == Init /\ [][Next]_vars
\* ---- what the rules are for
HermitianAlways == st.made => Hermitian(st.rho) /\ Trace(st.rho)[1] > 0
Reference == st.made => st.t0 = (IF sys.ex THEN st.t ELSE RZero)
RhsHermitian == (st.made /\ hin = <<>>) => Hermitian(Rhs(st.rho, RZero, RZero))
Emit == (Len(hin) = MaxOps \/ (~st.made /\ hexp # <<>>)) => CSVWrite("%1$s", <<ToJson([in |-> [sys |-> sys, rho0 |-> st.rho0, init |-> st.init, ops |-> hin,
          tr |-> [i \in 1..Len(hexp) |-> IF st.made THEN Trace(hexp[i].rho)[1] ELSE 1]], exp |-> [obs |-> hexp]])>>, IOEnv.OUT)
=============================================================================
