----------------------------- MODULE Composite -----------------------------
(* A composite system: free subsystems (one per axis) and interactions acting on ordered choices of axes.  Every part may or
   may not have each of the capabilities exact propagator, Hamiltonian, jump channels (any number), averages (any number).
   The specification says what the whole does: every part acts tensored with identities, everything is ordered subsystem by
   subsystem and then interaction by interaction.  Data are exact (Gaussian integers).  The parts' own operators are sparse
   (row x of the matrix has one element, w(x), in column y(x)); states are dense. *)
EXTENDS Gauss, TLC, Json, CSV, IOUtils, FiniteSets
CONSTANTS Layouts,   \* set of [n |-> name, d |-> dimensions, a |-> the axes of the interactions]
          Configs,   \* set of systems [layout, dims, acts, legs, ex, ha, li, av, mas]; li and av hold -1 (no such capability) or the number of channels / averages
          MaxOps, SDepth
VARIABLES cfg, psi, hist, ready
vars == <<cfg, psi, hist, ready>>
Dims == cfg.dims
N == Prod(Dims)
R == Len(Dims)
P == R + Len(cfg.acts)
Axes(p) == IF p <= R THEN <<p - 1>> ELSE cfg.acts[p - R]
\* an act names the free systems on its legs; all acts have to mean the same one on the same axis
LegsOn(x) == {cfg.legs[q[1]][q[2]] : q \in {r \in (1..Len(cfg.acts)) \X (1..4) : r[2] <= Len(cfg.acts[r[1]]) /\ cfg.acts[r[1]][r[2]] = x}}
Consistent == \A x \in 0..R-1 : Cardinality(LegsOn(x)) = 1
\* identity of the part's object: what its operators are derived from
Id(p) == IF p <= R THEN CHOOSE i \in LegsOn(p - 1) : TRUE ELSE 10 + p - R
Size(p) == Prod(Select(Dims, Axes(p)))
\* ---- the parts' own operators (arbitrary but fixed)
Weight(s, kind, c, x) == <<((3 * s + 2 * kind + 5 * c + 7 * x) % 5) - 2, ((s + 3 * kind + c + 2 * x + x * x) % 4) - 1>>
Col(s, kind, c, x, n) == 1 + ((x + s + 2 * kind + c) % n)
Op(p, kind, c, plus, times) == LET s == TLCEval(Id(p)) n == TLCEval(Size(p)) IN
  TLCEval([x \in 1..n |-> [y |-> Col(s, kind, c, x, n), w |-> Scale(times, Add(Weight(s, kind, c, x), <<plus, 0>>))]])
U(p, t, t0) == LET s == TLCEval(Id(p)) n == TLCEval(Size(p)) IN TLCEval([x \in 1..n |-> [y |-> x, w |-> IPow(3 * s + x * (s + 1) + (2 * t - t0) * x + 400)]])
Ham(p, t, t0) == Op(p, 2, 0, 0, t + 2 * t0 + Id(p))
\* elements with three channels are time-independent ones
Jump(p, c, t) == Op(p, 3, c, IF cfg.li[p] = 3 THEN 0 ELSE t, 1)
Avr(p, c) == Op(p, 4, c, 0, 1)
\* ---- tensoring with identities: for every index of the whole, the part's index and the indices with the part's replaced
PlaceOf(ds, v) == LET vd == Select(ds, v) IN
  [f \in 1..Prod(ds) |-> LET ix == Unflat(f - 1, ds) IN
     [x |-> 1 + Flat([k \in 1..Len(v) |-> ix[v[k] + 1]], vd),
      to |-> [y \in 1..Prod(vd) |-> LET jx == Unflat(y - 1, vd) IN
                1 + Flat([a \in 1..Len(ds) |-> IF (a - 1) \in RangeOf(v) THEN jx[PosOf(v, a - 1)] ELSE ix[a]], ds)]]]
AllPlaces == [l \in {<<k.d, k.a>> : k \in Layouts} |-> [p \in 1..(Len(l[1]) + Len(l[2])) |-> PlaceOf(l[1], IF p <= Len(l[1]) THEN <<p - 1>> ELSE l[2][p - Len(l[1])])]]
Place(p) == AllPlaces[<<cfg.dims, cfg.acts>>][p]
\* row i of the tensored operator: its column and weight
Tensored(op, p) == LET pl == Place(p) IN TLCEval([i \in 1..N |-> [y |-> pl[i].to[op[pl[i].x].y], w |-> op[pl[i].x].w]])
Act(op, p, f) == LET o == Tensored(op, p) IN TLCEval([i \in 1..N |-> Mul(o[i].w, f[o[i].y])])
\* M rho M^dagger
Super(op, p, rho) == LET o == Tensored(op, p) IN
  TLCEval([i \in 1..N |-> [j \in 1..N |-> Mul(Mul(o[i].w, Conj(o[j].w)), rho[o[i].y][o[j].y])]])
VAdd(a, b) == TLCEval([i \in 1..Len(a) |-> Add(a[i], b[i])])
\* ---- the whole
RECURSIVE AllU(_, _, _, _)
AllU(p, t, t0, f) == IF p > P THEN f ELSE AllU(p + 1, t, t0, IF cfg.ex[p] THEN Act(U(p, t, t0), p, f) ELSE f)
RECURSIVE AllH(_, _, _, _)
AllH(p, t, t0, f) == IF p > P THEN [i \in 1..N |-> Zero]
                     ELSE LET rest == AllH(p + 1, t, t0, f) IN IF cfg.ha[p] THEN VAdd(rest, Act(Ham(p, t, t0), p, f)) ELSE rest
Max0(n) == IF n < 0 THEN 0 ELSE n
Channels(n) == Cat(LAMBDA p : [c \in 1..Max0(n[p]) |-> <<p, c>>], 1, P)      \* the order of everything
JC == Channels(cfg.li)
AC == Channels(cfg.av)
JumpOf(q, t) == Jump(q[1], q[2], t)
DoJump(q, t, f) == Act(JumpOf(q, t), q[1], f)
Norm2(f) == ISum(LAMBDA i : Abs2(f[i]), 1, Len(f))
RateOf(q, t, rho) == LET o == Tensored(JumpOf(q, t), q[1]) IN ISum(LAMBDA i : Abs2(o[i].w) * rho[o[i].y][o[i].y][1], 1, N)
Raw(q, t, rho) == LET o == Tensored(Avr(q[1], q[2]), q[1]) IN (1 + t) * ISum(LAMBDA i : Mul(o[i].w, rho[o[i].y][i])[1], 1, N)
\* a part's post-processing mixes its own values
Processed(raw) == LET n == Len(raw) IN IF n = 0 THEN raw ELSE LET a == [raw EXCEPT ![1] = @ + 7 * raw[n]] IN [a EXCEPT ![n] = 1 - 2 * @]
PartAverages(p, t, rho) == [c \in 1..Max0(cfg.av[p]) |-> Raw(<<p, c>>, t, rho)]
Averages(t, rho) == Cat(LAMBDA p : PartAverages(p, t, rho), 1, P)
Streamed(t, rho) == Cat(LAMBDA p : Processed(PartAverages(p, t, rho)), 1, P)
HasAny(c) == \E p \in 1..P : c[p]
HasNum(c) == \E p \in 1..P : c[p] >= 0
\* ---- behaviour
Amp(s, k) == <<((s * k * k + 3 * k + s) % 5) - 2, ((k * k + s * k + 1) % 4) - 1>>
State(s, n) == TLCEval([k \in 1..n |-> Amp(s, k)])
DyadE(a) == TLCEval(Dyad(a, a))
Rho(f) == TLCEval(MAdd(Dyad(f, f), Dyad(State(1, N), State(1, N))))
Init == \E c \in Configs : cfg = c /\ psi = State(2, Prod(c.dims)) /\ hist = <<>> /\ ready = FALSE
Make == ~ready /\ ready' = TRUE /\ UNCHANGED <<cfg, psi, hist>>      \* the system is put together
On == ready /\ Consistent /\ Len(hist) < MaxOps
Propagate == \E q \in {<<1, 0>>, <<3, 1>>} : /\ On /\ HasAny(cfg.ex) /\ psi' = AllU(1, q[1], q[2], psi)
                                             /\ hist' = Append(hist, [op |-> "U", t |-> q[1], t0 |-> q[2], k |-> 0]) /\ UNCHANGED <<cfg, ready>>
DoJ == /\ On /\ LET jc == TLCEval(JC) IN
          \E k \in 1..Len(jc) : \E t \in {2} : /\ psi' = DoJump(jc[k], t, psi)
                                               /\ hist' = Append(hist, [op |-> "J", t |-> t, t0 |-> 0, k |-> k - 1]) /\ UNCHANGED <<cfg, ready>>
Next == Make \/ Propagate \/ DoJ
Spec == Init /\ [][Next]_vars
\* ---- design properties: the rate of a channel is the squared norm its jump produces and the trace of its dissipator;
\* parts on disjoint axes commute
Start == ready /\ Consistent /\ hist = <<>>
RatesAreNorms == Start => LET jc == TLCEval(JC) IN \A k \in 1..Len(jc) : RateOf(jc[k], 2, DyadE(psi)) = Norm2(DoJump(jc[k], 2, psi))
RatesAreTraces == Start => LET jc == TLCEval(JC) rho == Rho(psi) IN \A k \in 1..Len(jc) : <<RateOf(jc[k], 2, rho), 0>> = Trace(Super(JumpOf(jc[k], 2), jc[k][1], rho))
Disjoint(p, q) == RangeOf(Axes(p)) \cap RangeOf(Axes(q)) = {}
DisjointCommute == Start => \A p, q \in 1..P : (p < q /\ Disjoint(p, q) /\ cfg.ha[p] /\ cfg.ha[q]) =>
                     Act(Ham(p, 1, 0), p, Act(Ham(q, 1, 0), q, psi)) = Act(Ham(q, 1, 0), q, Act(Ham(p, 1, 0), p, psi))
\* ---- observations
Static == [refused |-> ~Consistent] @@
  (IF ~Consistent THEN [nothing |-> TRUE] ELSE
   [dims |-> Dims, hasEx |-> HasAny(cfg.ex), hasHa |-> HasAny(cfg.ha), hasLi |-> HasNum(cfg.li), nJ |-> Len(JC), nA |-> Len(AC),
    master |-> \A p \in 1..P : cfg.ex[p] => cfg.mas[p],
    keyJ |-> [k \in 1..Len(JC) |-> <<5 + k, Id(JC[k][1]), JC[k][2]>>], keyA |-> [k \in 1..Len(AC) |-> <<2 + k, Id(AC[k][1]), AC[k][2]>>]])
Line(obs, k, exp) == CSVWrite("%1$s", <<ToJson([in |-> [cfg |-> cfg, psi |-> State(2, N), phi |-> State(1, N), chi |-> State(3, N), ops |-> hist, obs |-> obs, k |-> k], exp |-> exp])>>, IOEnv.OUT)
EmitC10 == ready => IF ~Consistent THEN Line("none", 0, Static) ELSE
  /\ Line("H", 0, [psi |-> psi, dpsi |-> VAdd(AllH(1, 2, 1, psi), State(3, N))])
  /\ (Len(hist) < SDepth /\ HasNum(cfg.li)) => LET jc == TLCEval(JC) rho == Rho(psi) d0 == TLCEval(Dyad(State(3, N), State(2, N))) IN
       \A k \in 1..Len(jc) : Line("S", k - 1, [drho |-> MAdd(Super(JumpOf(jc[k], 3), jc[k][1], rho), d0)])
EmitC11 == ready => IF ~Consistent THEN Line("none", 0, Static) ELSE
  /\ (hist = <<>> => Line("K", 0, Static))
  /\ LET jc == TLCEval(JC) p == DyadE(psi) r == Rho(psi) IN
     Line("A", 0, [avp |-> Averages(2, p), avr |-> Averages(2, r), strp |-> Streamed(2, p), strr |-> Streamed(2, r),
                   ratesp |-> [k \in 1..Len(jc) |-> RateOf(jc[k], 2, p)], ratesr |-> [k \in 1..Len(jc) |-> RateOf(jc[k], 2, r)],
                   norms |-> [k \in 1..Len(jc) |-> Norm2(DoJump(jc[k], 2, psi))]])
=============================================================================
