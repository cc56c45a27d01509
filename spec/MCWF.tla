------------------------------- MODULE MCWF -------------------------------
(* Quantum-jump (Monte Carlo wave-function) trajectories.
   Times, step sizes, rates and random numbers are exact rationals; the state vector is a vector of Gaussian integers known
   up to a positive factor (it is normalised after each stage, so its length carries no information).
   The ODE engine is an environment: it decides how much of the allowed step it takes (f) and what it proposes next (g);
   over a step beginning at t it applies the Hamiltonian once.  The system may have an exact part, a Hamiltonian part and
   jump channels in any combination; all of them depend on the times they are evaluated at through Fd, so that evaluating
   anything at a wrong instant becomes visible in the state. *)
EXTENDS TrajSys, TLC, Json, CSV, IOUtils
CONSTANTS Ns, Seeds, ChannelSets, Caps, Dts, Fs, Gs, DpTols, DtInits, Specials, MaxOps, Edges, WithResume, Pick(_)
VARIABLES sys, st, hin, hexp
vars == <<sys, st, hin, hexp>>

\* ---- the system
ActH(v, t, t0) == OnVec(OpH(sys.s, Len(v), t, t0), v)
ActU(v, t, t0) == OnVec(OpU(sys.s, Len(v), t, t0), v)
ActJ(v, c, t) == OnVec(OpJ(sys.s, Len(v), c, t), v)
N2(v) == ISum(LAMBDA x : Abs2(v[x]), 1, Len(v))
RECURSIVE VGcd(_, _)
VGcd(v, x) == IF x > Len(v) THEN 0 ELSE Gcd(Gcd(Abs(v[x][1]), Abs(v[x][2])), VGcd(v, x + 1))
Reduce(v) == LET g == VGcd(v, 1) IN IF g <= 1 THEN v ELSE [x \in 1..Len(v) |-> <<v[x][1] \div g, v[x][2] \div g>>]
Nch == IF sys.li = -1 THEN 0 ELSE sys.li
Rate(v, c, t) == RRed(<<N2(ActJ(v, c, t)), N2(v)>>)
\* ---- one attempt of the coherent part of a step and, if it overshoots the tolerance, the further ones
RECURSIVE TotTo(_, _, _)
TotTo(v, c, t) == IF c = 0 THEN RZero ELSE RAdd(TotTo(v, c - 1, t), Rate(v, c, t))
Tot(v, t) == TotTo(v, Nch, t)
Suggest(tot) == IF tot[1] = 0 THEN RInf ELSE RDiv(sys.dp, tot)
Fine(r) == r[1] <= 20000 /\ r[2] <= 20000
RECURSIVE Attempt(_, _, _, _, _, _)
Attempt(s0, try, Dt, f, g, k) ==
  LET did == IF sys.ha THEN RMul(RMin(try, Dt), f) ELSE IF sys.li >= 0 THEN RMin(try, Dt) ELSE Dt
      t1 == RAdd(s0.t, did)
      next == IF sys.ha THEN RMul(did, g) ELSE try
      v1 == IF sys.ha THEN ActH(s0.psi, s0.t, s0.t0) ELSE s0.psi
      v == Reduce(IF sys.ex THEN ActU(v1, t1, s0.t0) ELSE v1)
      tot == Tot(v, t1)
      p == RMul(tot, did)
      limit == RMul(sys.tol, sys.dp)
      bad == [ok |-> FALSE]
  IN IF ~Fine(did) \/ ~Fine(t1) THEN bad ELSE
     IF Tie(t1) \/ N2(v) > 20000 THEN bad ELSE
     IF sys.li = -1 THEN [ok |-> TRUE, psi |-> v, t |-> t1, did |-> did, try |-> next, back |-> k, p |-> RZero] ELSE
     IF ~Fine(tot) \/ ~Fine(p) \/ ~Fine(Suggest(tot)) \/ ~Fine(next) THEN bad ELSE
     IF p = limit THEN bad ELSE
     IF RLt(limit, p) THEN (IF k > 5 THEN bad ELSE Attempt(s0, Suggest(tot), Dt, f, g, k + 1))
     ELSE [ok |-> TRUE, psi |-> v, t |-> t1, did |-> did, back |-> k, p |-> p,
           try |-> IF sys.ha THEN RMin(next, Suggest(tot)) ELSE Suggest(tot)]
\* ---- random numbers worth trying: well inside, just inside, and just outside of every channel's interval
Cum(a, c) == RMul(TotTo(a.psi, c, a.t), a.did)
Draws(a) == LET RAt(lo, hi, e) == RAdd(lo, RMul(RSub(hi, lo), e)) IN
  {[ch |-> c, r |-> RAt(Cum(a, c - 1), Cum(a, c), e)] : c \in {c \in 1..Nch : RLt(Cum(a, c - 1), Cum(a, c))}, e \in Edges}
  \cup (IF RLt(a.p, ROne) THEN {[ch |-> 0, r |-> RAt(a.p, ROne, e)] : e \in Edges} ELSE {})
\* ---- behaviours
Psi0s(n) == IF n = 2 THEN {<< <<1,0>>, <<0,0>> >>, << <<1,0>>, <<1,1>> >>} ELSE {<< <<0,1>>, <<0,0>>, <<1,0>> >>}
Obs(s) == [t |-> s.t, did |-> s.did, try |-> s.try, psi |-> s.psi, jumps |-> s.jumps, steps |-> s.steps, backs |-> s.backs]
Init == /\ sys \in {[n |-> n, s |-> s, li |-> li, special |-> sp, ex |-> cp[1], ha |-> cp[2], dp |-> dt[1], tol |-> dt[2]] :
                    n \in Ns, s \in Seeds, li \in ChannelSets, sp \in Specials, cp \in Caps, dt \in DpTols}
        /\ (sys.li <= 0 => sys.special = 0)
        /\ st = [made |-> FALSE] /\ hin = <<>> /\ hexp = <<>>
Make == /\ ~st.made
        /\ \E v \in Pick(Psi0s(sys.n)), d \in Pick(DtInits) :
             LET tot == Tot(v, RZero)
                 try == IF sys.li = -1 THEN d ELSE IF sys.ha THEN RMin(d, Suggest(tot)) ELSE Suggest(tot)
             IN st' = [made |-> TRUE, psi |-> v, t |-> RZero, t0 |-> RZero, did |-> RZero, try |-> try, jumps |-> <<>>, steps |-> 0, backs |-> 0, psi0 |-> v, init |-> d]
        /\ hexp' = <<Obs(st')>> /\ UNCHANGED <<sys, hin>>
Step == /\ st.made /\ Len(hin) < MaxOps
        /\ \E Dt \in Pick(Dts), f \in Pick(IF sys.ha THEN Fs ELSE {ROne}), g \in Pick(IF sys.ha THEN Gs ELSE {ROne}) :
            LET a == Attempt(st, st.try, Dt, f, g, 0) IN
            /\ a.ok
            /\ \E d \in (IF sys.li = -1 THEN {[ch |-> 0, r |-> <<1, 2>>]} ELSE Pick(Draws(a))) :
                /\ Fine(d.r) /\ RLt(d.r, ROne)
                /\ st' = [st EXCEPT !.psi = IF d.ch = 0 THEN a.psi ELSE Reduce(ActJ(a.psi, d.ch, a.t)), !.t = a.t, !.t0 = IF sys.ex THEN a.t ELSE st.t0,
                            !.did = a.did, !.try = a.try, !.backs = st.backs + a.back, !.steps = st.steps + 1,
                            !.jumps = IF d.ch = 0 THEN st.jumps ELSE Append(st.jumps, [t |-> a.t, ch |-> d.ch - 1])]
                /\ hin' = Append(hin, [op |-> "step", Dt |-> Dt, f |-> f, g |-> g, r |-> d.r])
        /\ hexp' = Append(hexp, Obs(st')) /\ UNCHANGED sys
\* saved and restored into a new trajectory made with a different state and step size
Resume == /\ WithResume /\ st.made /\ hin # <<>> /\ hin[Len(hin)].op = "step" /\ Len(hin) < MaxOps
          /\ hin' = Append(hin, [op |-> "resume"]) /\ hexp' = Append(hexp, Obs(st)) /\ UNCHANGED <<sys, st>>
Next == Make \/ Step \/ Resume
Spec == Init /\ [][Next]_vars
\* ---- what the rules are for
Last == hin[Len(hin)]
Reference == st.made => st.t0 = (IF sys.ex THEN st.t ELSE RZero)
NeverOvershoots == (st.made /\ hin # <<>> /\ Last.op = "step") => Len(hexp) = Len(hin) + 1
StepBounded == [][(st.made /\ st'.made /\ st'.steps = st.steps + 1) => (RLt(st.t, st'.t) /\ ~RLt(Head(<<hin'[Len(hin')].Dt>>), st'.did) /\ st'.t = RAdd(st.t, st'.did))]_vars
OneJumpAtMost == [][(st.made /\ st'.made) => Len(st'.jumps) - Len(st.jumps) \in {0, 1}]_vars
JumpLogOrdered == st.made => \A i, j \in 1..Len(st.jumps) : i < j => RLt(st.jumps[i].t, st.jumps[j].t)
TryLimited == (st.made /\ hin # <<>> /\ sys.li > 0 /\ Last.op = "step" /\ (IF st.jumps = <<>> THEN TRUE ELSE st.jumps[Len(st.jumps)].t # st.t)) =>
    LET tot == Tot(st.psi, st.t) IN tot[1] = 0 \/ ~RLt(RDiv(sys.dp, tot), st.try)
Emit == (Len(hin) = MaxOps) => CSVWrite("%1$s", <<ToJson([in |-> [sys |-> sys, psi0 |-> st.psi0, init |-> st.init, ops |-> hin,
          n2 |-> [i \in 1..Len(hexp) |-> N2(hexp[i].psi)]], exp |-> [obs |-> hexp]])>>, IOEnv.OUT)
=============================================================================
