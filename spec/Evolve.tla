------------------------------- MODULE Evolve -------------------------------
(* The evolution drivers: a command line says how (evol: single, ensemble, master), in which picture, how long, with which measures of
   entanglement; a script hands over the system and the initial state.  What is sampled is then determined: for the exactly soluble dynamics
   of at most one excitation shared by two-level atoms and a resonant mode (exchange of the excitation by rational rotations, common
   detuning of quarter turns per sampling interval, common decay halving the amplitudes in a sampling interval), all methods and all
   pictures yield the same averages, up to the recorded jumps, each of which leaves the vacuum behind.

   A: amplitudes of the vacuum and of the excitation at each site, over the common scale s; what is missing of the unit norm is in the vacuum. *)
EXTENDS Gauss, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANT Choices(_)      \* of configurations
VARIABLES cfg, A, s, hexp
vars == <<cfg, A, s, hexp>>
Sites(c) == Len(c.g) + 1                      \* atom, mode, (atom)
AtomSite(i) == IF i = 1 THEN 1 ELSE 3
ModeSite == 2
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GcdAll(_, _)
GcdAll(v, i) == IF i > Len(v) THEN 0 ELSE Gcd(Gcd(AbsI(v[i][1]), AbsI(v[i][2])), GcdAll(v, i + 1))
N2(z) == z[1] * z[1] + z[2] * z[2]
RECURSIVE SumI(_, _, _)
SumI(F(_), a, b) == IF a > b THEN 0 ELSE F(a) + SumI(F, a + 1, b)

\* initial state: [site, amp, den, w]
A0(c) == [i \in 1..(Sites(c) + 1) |-> IF i = 1 THEN <<c.ini.w, 0>> ELSE IF i - 1 = c.ini.site THEN c.ini.amp ELSE Zero]
S0(c) == c.ini.den * (IF c.mix THEN 2 ELSE 1)

\* one sampling interval
Turn(c, a) == LET gd == c.gden r == c.rot IN LET rc == r[1] rs == r[2] rd == r[3] um == a[ModeSite + 1]
     b == SumFT(LAMBDA i : Mul(Conj(c.g[i]), a[AtomSite(i) + 1]), 1, Len(c.g)) IN
  [i \in 1..Len(a) |->
    IF i = 1 THEN Scale(gd * gd * rd * (IF c.lossy THEN 2 ELSE 1), a[1])
    ELSE Mul(IPow(c.d),
      IF i = ModeSite + 1 THEN Add(Scale(rc * gd * gd, um), Scale(rs * gd, b))
      ELSE LET g == c.g[IF i = 2 THEN 1 ELSE 2] IN Add(Scale(gd * gd * rd, a[i]), Mul(g, Add(Scale(rc - rd, b), Scale(-rs * gd, um)))))]
Move(c, a, sc) == LET n == Turn(c, a) sn == sc * c.gden * c.gden * c.rot[3] * (IF c.lossy THEN 2 ELSE 1) k == Gcd(sn, GcdAll(n, 1)) IN
  [a |-> [i \in 1..Len(n) |-> <<n[i][1] \div k, n[i][2] \div k>>], s |-> sn \div k]

Master(c) == c.evol = "master" \/ c.entry = "master"
Refused(c) == c.entry = "rho" /\ c.evol # "master"
Members(c) == IF c.evol = "single" THEN 1 ELSE c.N
Norm(a) == SumI(LAMBDA i : N2(a[i]), 1, Len(a))
\* the density operator (over .S) on the vacuum and the singly excited states after k intervals: .m times the projector, .p0 in the vacuum
Rho(c, a, sc, k) ==
  LET jumped == IF k = 0 THEN 0 ELSE Cardinality(c.J)
      m == IF Master(c) THEN 1 ELSE Members(c) - jumped
      p0 == IF Master(c) THEN sc * sc - Norm(a) ELSE jumped * Norm(a)
      S == IF Master(c) THEN sc * sc ELSE Members(c) * Norm(a)
  IN [S |-> S, m |-> m, p0 |-> p0, R |-> [i \in 1..Len(a) |-> [j \in 1..Len(a) |->
        Add(Scale(m, Mul(a[i], Conj(a[j]))), IF i = 1 /\ j = 1 THEN <<p0, 0>> ELSE Zero)]]]
TraceOf(r) == SumI(LAMBDA i : r.R[i][i][1], 1, Len(r.R))
Measures(c) == IF c.V = <<>> \/ (~Master(c) /\ c.evol = "single") THEN <<>>
  ELSE (IF c.ems[1] THEN <<"negativity">> ELSE <<>>) \o (IF c.ems[2] THEN <<"mutual information">> ELSE <<>>) \o (IF c.ems[3] THEN <<"purity">> ELSE <<>>)
InV(c, i) == \E j \in 1..Len(c.V) : c.V[j] + 1 = i
Averages(c, r) == LET Site(i) == LET p == r.R[i + 1][i + 1][1] x == r.R[i + 1][1] IN
     IF i = ModeSite THEN <<p, p, x[1], x[2]>> ELSE <<r.S - p, p, x[1], x[2]>>
  IN IF Sites(c) = 2 THEN Site(1) \o Site(2) ELSE Site(1) \o Site(2) \o Site(3)
Sample(c, a, sc, k) == LET r == Rho(c, a, sc, k) IN
  [t |-> k, av |-> Averages(c, r), ent |-> Measures(c), S |-> r.S, w2 |-> r.m * N2(a[1]), p0 |-> r.p0,
   pV |-> SumI(LAMBDA i : IF InV(c, i) THEN r.R[i + 1][i + 1][1] ELSE 0, 1, Sites(c)),
   pW |-> SumI(LAMBDA i : IF InV(c, i) THEN 0 ELSE r.R[i + 1][i + 1][1], 1, Sites(c))]
\* what the caller finds in the object handed over
KeepsState(c) == c.entry = "psi" /\ c.evol # "single"
Left(c, a, sc, k) == IF KeepsState(c) THEN LET r == Rho([c EXCEPT !.evol = "single", !.J = {}], A0(c), S0(c), 0) IN [R |-> r.R, S |-> r.S]
                     ELSE LET r == Rho(c, a, sc, k) IN [R |-> r.R, S |-> r.S]

Init == cfg = <<>> /\ A = <<>> /\ s = 1 /\ hexp = <<>>
Start == /\ hexp = <<>> /\ \E c \in Choices(cfg) : cfg' = c /\ A' = A0(c) /\ s' = S0(c) /\ hexp' = <<Sample(c, A0(c), S0(c), 0)>>
Run ==  /\ hexp # <<>> /\ Len(hexp) <= cfg.K
        /\ LET n == Move(cfg, A, s) IN A' = n.a /\ s' = n.s /\ hexp' = Append(hexp, Sample(cfg, n.a, n.s, Len(hexp)))
        /\ UNCHANGED cfg
Next == Start \/ Run
Spec == Init /\ [][Next]_vars

\* the trace is conserved, the vacuum only gains
TraceIsOne == hexp # <<>> => LET r == Rho(cfg, A, s, Len(hexp) - 1) IN TraceOf(r) = r.S /\ r.p0 >= 0
Unitary == (IF hexp = <<>> THEN FALSE ELSE ~cfg.lossy) => Norm(A) * S0(cfg) * S0(cfg) = Norm(A0(cfg)) * s * s
Populations == \A k \in 1..Len(hexp) : LET h == hexp[k] IN h.pV + h.pW + h.p0 + h.w2 = h.S
Ems(c) == IF Measures(c) = <<>> THEN "" ELSE (IF c.ems[1] THEN "negativity;" ELSE "") \o (IF c.ems[2] THEN "mutual information;" ELSE "") \o (IF c.ems[3] THEN "purity of partial trace;" ELSE "")
Out(h) == [t |-> h.t, av |-> h.av, ent |-> h.ent]
Shown(on) == IF on /\ ~Refused(cfg) THEN [k \in 1..Len(hexp) |-> Out(hexp[k])] ELSE <<>>
Keyed == cfg.ds /\ ~Refused(cfg)
Emit == (IF hexp = <<>> THEN FALSE ELSE Len(hexp) = cfg.K + 1) =>
  LET l == Left(cfg, A, s, cfg.K) IN
  CSVWrite("%1$s", <<ToJson([in |-> [c |-> cfg, hint |-> hexp, fin |-> l],
    exp |-> [how |-> IF Refused(cfg) THEN "refused" ELSE "ok", left |-> IF cfg.lv /\ ~Refused(cfg) THEN l.R ELSE "gone", text |-> Shown(cfg.ds), rec |-> Shown(cfg.rs),
             key |-> IF Keyed THEN Ems(cfg) ELSE "", columns |-> IF Keyed THEN 4 * Sites(cfg) + Len(Measures(cfg)) ELSE 0]])>>, IOEnv.OUT)
=============================================================================
