------------------------------- MODULE Elements -------------------------------
(* The elements (free systems) and interactions of the framework: generator, jump operators and averages.
   An element is chosen with its parameters and the quantum-mechanical picture in which it has to be realised, it is constructed, and then
   called in an arbitrary sequence: generator (g), exact propagator (u), jumps (j), rates (r), Master-equation terms (s), averages (a).
   What the element answers is determined by its parameters alone: not by the picture, not by the time, not by earlier calls.

   Amplitudes: psi_x = sqrt(w_x) phi_x with phi_x Gaussian integers and integer weights w_x making the matrix elements of ladder operators
   integers (modes: w_n = n!, spins: w_n = n!(2S-n)!, particles and multilevel atoms: 1).  Every elementary operator has at most one
   entry in each row: a sequence of <<column, value>>, column 0 standing for an empty row.  Generators are in units of one fourth. *)
EXTENDS Gauss, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Kinds, ParsOf(_), Ops, Times, MaxCalls, NStates, Pick(_)
VARIABLES pc, el, hin, hexp
vars == <<pc, el, hin, hexp>>

\* ------------------------------------------------------------------ elementary operators
Diag(N, F(_)) == [r \in 1..N |-> <<r, F(r - 1)>>]
Id(N) == Diag(N, LAMBDA n : One)
Num(N) == Diag(N, LAMBDA n : <<n, 0>>)
Low(N) == [r \in 1..N |-> IF r < N THEN <<r + 1, <<r, 0>> >> ELSE <<0, Zero>>]
Up(N) == [r \in 1..N |-> IF r > 1 THEN <<r - 1, One>> ELSE <<0, Zero>>]
SUp(N, TS) == [r \in 1..N |-> IF r > 1 THEN <<r - 1, <<TS - r + 2, 0>> >> ELSE <<0, Zero>>]
Kick(N, k) == [r \in 1..N |-> IF r - k \in 1..N THEN <<r - k, One>> ELSE <<0, Zero>>]      \* exp(ikx) in momentum space
Unit(N, i, j) == [r \in 1..N |-> IF r = i + 1 THEN <<j + 1, One>> ELSE <<0, Zero>>]          \* |i><j|
Mono(p, q) == [r \in 1..Len(p) |-> IF p[r][1] = 0 THEN <<0, Zero>> ELSE <<q[p[r][1]][1], Mul(p[r][2], q[p[r][1]][2])>>]   \* p after q
\* sums of elementary operators on one subsystem: sequences of <<coefficient, operator>>
OAdj(o, H(_)) == [i \in 1..Len(o) |-> <<Conj(o[i][1]), H(o[i][2])>>]
\* mode functions: 0 sin, 1 cos, 2 plus, 3 minus, twice the value so that the coefficients are integers
MF(N, mf, k) == CASE mf = 0 -> << << <<0, -1>>, k>>, << <<0, 1>>, -k>> >>
                  [] mf = 1 -> << <<One, k>>, <<One, -k>> >>
                  [] mf = 2 -> << << <<2, 0>>, k>> >>
                  [] OTHER -> << << <<2, 0>>, -k>> >>
MFConj(m) == [i \in 1..Len(m) |-> <<Conj(m[i][1]), -m[i][2]>>]
MFProd(a, b) == Cat(LAMBDA i : [j \in 1..Len(b) |-> <<Mul(a[i][1], b[j][1]), a[i][2] + b[j][2]>>], 1, Len(a))

\* an operator on the whole: term [c, m], m being one elementary operator for each subsystem, flattened
Flatten(dims, t) == [x \in 1..Prod(dims) |->
  LET ix == Unflat(x - 1, dims)
      e == [k \in 1..Len(dims) |-> t.m[k][ix[k] + 1]]
  IN IF \E k \in 1..Len(dims) : e[k][1] = 0 THEN <<0, Zero>>
     ELSE <<1 + Flat([k \in 1..Len(dims) |-> e[k][1] - 1], dims),
            IF Len(dims) = 1 THEN Mul(t.c, e[1][2]) ELSE IF Len(dims) = 2 THEN Mul(t.c, Mul(e[1][2], e[2][2])) ELSE Mul(t.c, Mul(e[1][2], Mul(e[2][2], e[3][2])))>>]
T(c, m) == [c |-> c, m |-> m]
Apply(op, phi) == [x \in 1..Len(phi) |-> SumFT(LAMBDA k : IF op[k][x][1] = 0 THEN Zero ELSE Mul(op[k][x][2], phi[op[k][x][1]]), 1, Len(op))]
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
WMode(N) == [r \in 1..N |-> Fact(r - 1)]
WSpin(N, TS) == [r \in 1..N |-> Fact(r - 1) * Fact(TS - r + 1)]
WOne(N) == [r \in 1..N |-> 1]
WProd(a, b) == [x \in 1..(Len(a) * Len(b)) |-> a[1 + (x - 1) \div Len(b)] * b[1 + ((x - 1) % Len(b))]]

\* ------------------------------------------------------------------ free elements: [dims, w, gen (terms), ch (channels [s2, a]), av, modi, cut]
Kerr(n) == n * (n - 1)
ModeDiag(N, Ke, D, W) == Diag(N, LAMBDA n : <<-Ke * n, D * n - W * Kerr(n)>>)
PumpTerms(N, eta) == << T(Scale(4, eta), <<Up(N)>>), T(Scale(-4, Conj(eta)), <<Low(N)>>) >>
Free(N, w, gen, ch) == [dims |-> <<N>>, w |-> w, gen |-> gen, ch |-> ch, modi |-> FALSE, cut |-> FALSE, split |-> TRUE]
ModeEl(p) == [Free(p.N, WMode(p.N), <<T(<<4, 0>>, <<ModeDiag(p.N, p.K * (2 * p.Th + 1), p.D, p.W + p.WA)>>)>> \o PumpTerms(p.N, p.eta),
    IF p.K = 0 THEN <<>> ELSE <<[s2 |-> 2 * p.K * (p.Th + 1), a |-> <<T(One, <<Low(p.N)>>)>>]>>
        \o (IF p.Th = 0 THEN <<>> ELSE <<[s2 |-> 2 * p.K * p.Th, a |-> <<T(One, <<Up(p.N)>>)>>]>>)) EXCEPT !.cut = p.Th > 0]
HomoEl(p) == [Free(p.N, WMode(p.N),
    <<T(<<2, 0>>, <<Diag(p.N, LAMBDA n : <<-(p.p * p.p + p.q * p.q) * n, 2 * (p.D * n - p.W * Kerr(n))>>)>>),
      T(Scale(-2 * (p.p + p.q), Conj(p.al)), <<Low(p.N)>>), T(Scale(-2 * (p.p + p.q), p.al), <<Up(p.N)>>)>> \o PumpTerms(p.N, p.eta),
    <<[s2 |-> 1, a |-> <<T(p.al, <<Id(p.N)>>), T(<<p.p, 0>>, <<Low(p.N)>>)>>],
      [s2 |-> 1, a |-> <<T(Conj(p.al), <<Id(p.N)>>), T(<<p.q, 0>>, <<Up(p.N)>>)>>]>>) EXCEPT !.cut = TRUE]
QbitEl(p) == Free(2, WMode(2), <<T(<<4, 0>>, <<ModeDiag(2, p.K, p.D, 0)>>)>> \o PumpTerms(2, Scale(-1, p.eta)),
    (IF p.K = 0 /\ p.P = 0 THEN <<>> ELSE <<[s2 |-> 2 * p.K, a |-> <<T(One, <<Low(2)>>)>>]>>)
      \o (IF p.P = 0 THEN <<>> ELSE <<[s2 |-> 2 * p.P, a |-> <<T(One, <<Diag(2, LAMBDA n : IF n = 0 THEN One ELSE <<-1, 0>>)>>)>>]>>))
SDim(p) == IF p.dim > 0 /\ p.dim < p.TS + 1 THEN p.dim ELSE p.TS + 1
\* -z S_n with z = ga + i om; th, ph multiples of pi/2
SpinEl(p) == LET N == SDim(p) z == <<p.ga, p.om>> mz == Scale(-1, z) IN
  [Free(N, WSpin(N, p.TS),
    IF p.th = 0 THEN <<T(Scale(2, mz), <<Diag(N, LAMBDA n : <<2 * n - p.TS, 0>>)>>)>>
    ELSE IF p.ph = 0 THEN <<T(Scale(2, mz), <<SUp(N, p.TS)>>), T(Scale(2, mz), <<Low(N)>>)>>
    ELSE <<T(Mul(<<0, -2>>, mz), <<SUp(N, p.TS)>>), T(Mul(<<0, 2>>, mz), <<Low(N)>>)>>,
    IF ~p.loss THEN <<>> ELSE <<[s2 |-> 2 * p.ga, a |-> <<T(One, <<Low(N)>>)>>]>>) EXCEPT !.modi = TRUE]
\* a relaxing spin as it should be (and, with as, as it is): known finding for larger spins and for other directions
SpinREl(p) == LET b == SpinEl(p) N == SDim(p) IN IF p.as THEN b
  ELSE [b EXCEPT !.gen = SpinEl([p EXCEPT !.ga = 0]).gen \o <<T(<<-4 * p.ga, 0>>, <<Diag(N, LAMBDA n : <<n * (p.TS - n + 1), 0>>)>>)>>]
\* a mode in interaction picture without exact part: observed when the pictures coincide
NoexEl(p) == Free(p.N, WMode(p.N), <<>>, <<[s2 |-> 2 * p.K, a |-> <<T(One, <<Low(p.N)>>)>>]>>)
PDim(f) == Pow2(f)
KOf(N, n) == n - N \div 2
PartEl(p) == LET N == PDim(p.fin) sg == IF p.mf = 0 THEN -1 ELSE 1 IN
  Free(N, WOne(N), <<T(<<0, -4 * p.om>>, <<Diag(N, LAMBDA n : <<KOf(N, n) * KOf(N, n), 0>>)>>)>>
    \o (IF p.V = 0 \/ p.mf > 1 THEN <<>> ELSE <<T(<<0, -p.V * sg>>, <<Kick(N, 2 * p.kp)>>), T(<<0, -p.V * sg>>, <<Kick(N, -2 * p.kp)>>)>>), <<>>)
\* three levels, pumps 0-2 and 1-2, decays 2->0, 2->1
MLDiag(p) == Diag(3, LAMBDA n : <<IF n = 2 THEN -(p.ga[1] + p.ga[2]) ELSE 0, p.de[n + 1]>>)
MLPump(e, i, j) == <<T(Scale(4, Conj(e)), <<Unit(3, i, j)>>), T(Scale(-4, e), <<Unit(3, j, i)>>)>>
MLEl(p) == [Free(3, WOne(3), <<T(<<4, 0>>, <<MLDiag(p)>>)>> \o MLPump(p.eta[1], 0, 2) \o MLPump(p.eta[2], 1, 2),
    <<[s2 |-> 2 * p.ga[1], a |-> <<T(One, <<Unit(3, 0, 2)>>)>>], [s2 |-> 2 * p.ga[2], a |-> <<T(One, <<Unit(3, 1, 2)>>)>>]>>
    \o (IF \A i \in 1..3 : p.gp[i] = 0 THEN <<>>
        ELSE [i \in 1..3 |-> [s2 |-> 2 * p.gp[i], a |-> <<T(One, <<Diag(3, LAMBDA n : IF n = i - 1 THEN <<-1, 0>> ELSE One)>>)>>]])) EXCEPT !.split = \A i \in 1..3 : p.gp[i] = 0]
TimhEl(p) == Free(3, WOne(3), [k \in 1..3 |-> T(<<4, 0>>, <<[r \in 1..3 |-> LET c == ((r + k - 2) % 3) + 1 IN <<c, p.m[r][c]>>]>>)], <<>>)

\* ------------------------------------------------------------------ interactions
Inter(dims, w, gen) == [dims |-> dims, w |-> w, gen |-> gen, ch |-> <<>>, modi |-> FALSE, cut |-> FALSE, split |-> TRUE]
MinusI(k) == <<0, -k>>
JCEl(p, N1, w1, sm, sp) == Inter(<<N1, p.m.N>>, WProd(w1, WMode(p.m.N)),
    <<T(Scale(4, Conj(p.g)), <<sm, Up(p.m.N)>>), T(Scale(-4, p.g), <<sp, Low(p.m.N)>>)>>)
CMEl(p) == LET N == p.m.N M == p.m2.N w == WProd(WMode(N), WMode(M)) IN
  CASE p.cp = 0 -> Inter(<<N, M>>, w, <<T(MinusI(4 * p.u[1]), <<Num(N), Low(M)>>), T(MinusI(4 * p.u[1]), <<Num(N), Up(M)>>)>>)    \* times sqrt 2
    [] p.cp = 1 -> Inter(<<N, M>>, w, <<T(MinusI(2 * p.u[1]), <<Low(N), Low(M)>>), T(MinusI(2 * p.u[1]), <<Low(N), Up(M)>>),
                                        T(MinusI(2 * p.u[1]), <<Up(N), Low(M)>>), T(MinusI(2 * p.u[1]), <<Up(N), Up(M)>>)>>)
    [] OTHER -> Inter(<<N, M>>, w, <<T(Scale(4, Conj(p.u)), <<Low(N), Up(M)>>), T(Scale(-4, p.u), <<Up(N), Low(M)>>)>>)
DickeEl(p) == LET N == p.m.N M == SDim(p.s) y == Mul(p.y, <<0, -2>>) IN
  Inter(<<N, M>>, WProd(WMode(N), WSpin(M, p.s.TS)), <<T(Mul(p.u, <<0, -4>>), <<Num(N), Num(M)>>),
     T(y, <<Up(N), SUp(M, p.s.TS)>>), T(y, <<Up(N), Low(M)>>), T(y, <<Low(N), SUp(M, p.s.TS)>>), T(y, <<Low(N), Low(M)>>)>>)
\* k times a sum of kicks, of which MF is twice (or MFProd four times) the value
Kicks(k, d, mode, M, ks) == [i \in 1..Len(ks) |-> LET c == Mul(k, ks[i][1]) IN T(<<c[1] \div d, c[2] \div d>>, <<mode, Kick(M, ks[i][2])>>)]
PocEl(p) == LET N == p.m.N M == PDim(p.p.fin) f == MF(M, p.p.mf, p.p.kp) IN
  Inter(<<N, M>>, WProd(WMode(N), WOne(M)), Kicks(MinusI(4 * p.ee), 2, Low(N), M, f) \o Kicks(MinusI(4 * p.ee), 2, Up(N), M, MFConj(f)))
DispTerms(p, N, M) == IF p.U = 0 \/ p.mf > 1 THEN <<>> ELSE LET c == MinusI((IF p.mf = 0 THEN -1 ELSE 1) * p.U) IN
   <<T(c, <<Num(N), Kick(M, 2 * p.kc)>>), T(c, <<Num(N), Kick(M, -2 * p.kc)>>)>>
PacEl(p) == LET N == p.m.N M == PDim(p.p.fin) fc == MF(M, p.mf, p.kc)
                f == IF p.pumped THEN MFProd(fc, MFConj(MF(M, p.p.mf, p.p.kp))) ELSE MFProd(fc, << << <<2, 0>>, 0>> >>) IN
  Inter(<<N, M>>, WProd(WMode(N), WOne(M)), DispTerms(p, N, M) \o Kicks(MinusI(4 * p.ee), 4, Low(N), M, f) \o Kicks(MinusI(4 * p.ee), 4, Up(N), M, MFConj(f)))
P2mEl(p) == LET N == p.m.N N2 == p.m2.N M == PDim(p.p.fin)
                f == MFProd(MFConj(MF(M, p.mf0, p.k0)), MF(M, p.mf1, p.k1)) k == Mul(MinusI(4 * p.ee), IPow(p.ph)) kc == Mul(MinusI(4 * p.ee), IPow(-p.ph))
                Ks(c, a, b, ks) == [i \in 1..Len(ks) |-> LET z == Mul(c, ks[i][1]) IN T(<<z[1] \div 4, z[2] \div 4>>, <<a, b, Kick(M, ks[i][2])>>)] IN
  Inter(<<N, N2, M>>, WProd(WMode(N), WProd(WMode(N2), WOne(M))), Ks(k, Up(N), Low(N2), f) \o Ks(kc, Low(N), Up(N2), MFConj(f)))
MljcEl(p) == LET N == p.m.N Cpl(g, i, j) == <<T(Scale(4, Conj(g)), <<Unit(3, i, j), Up(N)>>), T(Scale(-4, g), <<Unit(3, j, i), Low(N)>>)>> IN
  Inter(<<3, N>>, WProd(WOne(3), WMode(N)), Cpl(p.g[1], 0, 2) \o Cpl(p.g[2], 1, 2))
Only(dims, w) == Inter(dims, w, <<>>)

Build(c) == LET p == c.p IN
  CASE c.k \in {"mode", "modeAlt"} -> ModeEl(p)
    [] c.k = "bichro" -> ModeEl(p)
    [] c.k = "homo" -> HomoEl(p)
    [] c.k \in {"qbit"} -> QbitEl(p)
    [] c.k = "p2la" -> QbitEl(p)
    [] c.k = "spin" -> SpinEl(p)
    [] c.k = "spinR" -> SpinREl(p)
    [] c.k = "bichroT" -> ModeEl(p)
    [] c.k = "noex" -> NoexEl(p)
    [] c.k = "part" -> PartEl(p)
    [] c.k = "ml" -> MLEl(p)
    [] c.k = "timh" -> TimhEl(p)
    [] c.k = "jcq" -> JCEl(p, 2, WMode(2), Low(2), Up(2))
    [] c.k = "jcs" -> JCEl(p, SDim(p.s), WSpin(SDim(p.s), p.s.TS), Low(SDim(p.s)), SUp(SDim(p.s), p.s.TS))
    [] c.k = "cm" -> CMEl(p)
    [] c.k = "dicke" -> DickeEl(p)
    [] c.k = "poc" -> PocEl(p)
    [] c.k = "pac" -> PacEl(p)
    [] c.k = "p2m" -> P2mEl(p)
    [] c.k = "mljc" -> MljcEl(p)
    [] c.k = "mcorr" -> Only(<<p.N, p.M>>, WProd(WMode(p.N), WMode(p.M)))
    [] c.k = "qmcorr" -> Only(<<2, p.N>>, WProd(WMode(2), WMode(p.N)))
    [] c.k = "rdo" -> Only(p.dims, WOne(Prod(p.dims)))
EffCh(c, b) == IF c.k = "p2la" THEN <<[s2 |-> 2 * c.p.K, a |-> <<T(One, <<Low(2)>>)>>]>> ELSE b.ch
Prep(c) == LET b == Build(c) d == b.dims chs == EffCh(c, b) IN
  [c |-> c, dims |-> d, w |-> b.w, gen |-> [k \in 1..Len(b.gen) |-> Flatten(d, b.gen[k])],
   ch |-> [k \in 1..Len(chs) |-> [s2 |-> chs[k].s2, a |-> [i \in 1..Len(chs[k].a) |-> Flatten(d, chs[k].a[i])]]], modi |-> b.modi, cut |-> b.cut, split |-> b.split]

\* ------------------------------------------------------------------ states
HasPart(e) == e.c.k \in {"poc", "pac", "p2m"}
\* k-space positions far enough from the edges that no kick leaves the grid
Inside(e, x) == ~HasPart(e) \/ LET M == e.dims[Len(e.dims)] n == (x - 1) % M IN n \in {M \div 2 - 1, M \div 2}
Amp(s, x) == <<((3 * x + 5 * s + x * x) % 5) - 2, ((x + 2 * s + x * s) % 4) - 1>>
Raw(e, s) == [x \in 1..Len(e.w) |-> IF Inside(e, x) THEN Amp(s, x) ELSE Zero]
\* at finite temperature the truncation cuts absorption from the highest level
NoTop(e, phi) == IF e.cut THEN [x \in 1..Len(phi) |-> IF x = Len(phi) THEN Zero ELSE phi[x]] ELSE phi
Nz(phi) == \E x \in 1..Len(phi) : phi[x] # Zero
Norm(e, phi) == ISum(LAMBDA x : e.w[x] * Abs2(phi[x]), 1, Len(phi))
NormC(e, cs) == ISum(LAMBDA i : Norm(e, cs[i]), 1, Len(cs))
EOne(e, op, phi) == LET y == Apply(op, phi) IN SumFT(LAMBDA x : Scale(e.w[x], Mul(Conj(phi[x]), y[x])), 1, Len(phi))
Ex(e, op, cs) == SumFT(LAMBDA i : EOne(e, op, cs[i]), 1, Len(cs))
Op1(e, m) == <<Flatten(e.dims, T(One, <<m>>))>>
Op2(e, m, n) == <<Flatten(e.dims, T(One, <<m, n>>))>>

\* ------------------------------------------------------------------ averages: sequences of <<value, scale, flag>>: (what is reported)*scale = value
\* flag 0: as such; 1: divided by the grid spacing of x; 2: the square, divided by the square of the grid spacing; plus 10 when what is reported is a (co)variance or deviation and labelled so
ModeAvg(N, Nn, En, En2, Ea, Ea2, top, which) ==
  LET A == << <<En, Nn, 0>>, <<Nn * En2 - En * En, Nn * Nn, 10>>, <<Ea[1], Nn, 0>>, <<Ea[2], Nn, 0>> >>
      Q == << <<2 * Nn * En + Nn * Nn + 2 * Nn * Ea2[1] - 4 * Ea[1] * Ea[1], 2 * Nn * Nn, 10>>,
              <<2 * Nn * En + Nn * Nn - 2 * Nn * Ea2[1] - 4 * Ea[2] * Ea[2], 2 * Nn * Nn, 10>>,
              <<Nn * Ea2[2] - 2 * Ea[1] * Ea[2], Nn * Nn, 10>> >>
      C == << <<top, Nn, 0>> >>
  IN CASE which = "A" -> A [] which = "Q" -> A \o Q [] which = "AC" -> A \o C [] which = "QC" -> A \o Q \o C
       [] which = "C" -> A \o (A \o Q) \o (A \o C) \o (A \o Q \o C) [] OTHER -> <<>>
TopPop(e, cs) == ISum(LAMBDA i : e.w[Len(e.w)] * Abs2(cs[i][Len(e.w)]), 1, Len(cs))
ModeAvgOf(e, cs, which) == LET N == e.dims[1] IN
  ModeAvg(N, NormC(e, cs), Ex(e, Op1(e, Num(N)), cs)[1], Ex(e, Op1(e, Mono(Num(N), Num(N))), cs)[1], Ex(e, Op1(e, Low(N)), cs),
          Ex(e, Op1(e, Mono(Low(N), Low(N))), cs), TopPop(e, cs), which)
Rho(cs, x, y) == SumFT(LAMBDA i : Mul(cs[i][x], Conj(cs[i][y])), 1, Len(cs))
QbitAvg(e, cs) == LET Nn == NormC(e, cs) r == Rho(cs, 2, 1) IN
  << <<Rho(cs, 1, 1)[1], Nn, 0>>, <<Rho(cs, 2, 2)[1], Nn, 0>>, <<r[1], Nn, 0>>, <<r[2], Nn, 0>> >>
SpinAvg(e, cs, TS) == LET N == e.dims[1] Nn == NormC(e, cs) d == Diag(N, LAMBDA n : <<2 * n - TS, 0>>)
    z == Ex(e, Op1(e, d), cs)[1] z2 == Ex(e, Op1(e, Mono(d, d)), cs)[1] sp == Ex(e, Op1(e, SUp(N, TS)), cs) IN
  << <<z, 2 * Nn, 0>>, <<Nn * z2 - z * z, 4 * Nn * Nn, 10>>, <<sp[1], Nn, 0>>, <<sp[2], Nn, 0>>, <<TopPop(e, cs), Nn, 0>> >>
PartAvg(e, cs) == LET N == e.dims[1] Nn == NormC(e, cs) d == Diag(N, LAMBDA n : <<KOf(N, n), 0>>)
    k == Ex(e, Op1(e, d), cs)[1] k2 == Ex(e, Op1(e, Mono(d, d)), cs)[1]
    At(phi, j) == SumFT(LAMBDA x : Mul(IPow((4 \div N) * KOf(N, x - 1) * KOf(N, j)), phi[x]), 1, N)      \* sqrt N times the amplitude at x_j, N = 2 or 4
    Px(j) == ISum(LAMBDA i : Abs2(At(cs[i], j)), 1, Len(cs))
    x1 == ISum(LAMBDA j : KOf(N, j) * Px(j), 0, N - 1) x2 == ISum(LAMBDA j : KOf(N, j) * KOf(N, j) * Px(j), 0, N - 1) IN
  << <<k, Nn, 0>>, <<Nn * k2 - k * k, Nn * Nn, 10>> >> \o
  (IF N > 4 THEN <<>> ELSE << <<x1, N * Nn, 1>>, <<N * Nn * x2 - x1 * x1, N * Nn * N * Nn, 12>> >>)
RdoAvg(e, cs, off) == LET N == Len(e.w) Nn == NormC(e, cs) IN
  [x \in 1..N |-> <<Rho(cs, x, x)[1], Nn, 0>>] \o
  (IF ~off THEN <<>> ELSE Cat(LAMBDA x : Cat(LAMBDA y : << <<Rho(cs, x, y)[1], Nn, 0>>, <<Rho(cs, x, y)[2], Nn, 0>> >>, x + 1, N), 1, N - 1))
MCorrAvg(e, cs) == LET N == e.dims[1] M == e.dims[2] Nn == NormC(e, cs)
    a == Ex(e, Op2(e, Low(N), Id(M)), cs) b == Ex(e, Op2(e, Id(N), Low(M)), cs)
    ab == Ex(e, Op2(e, Low(N), Low(M)), cs) adb == Ex(e, Op2(e, Up(N), Low(M)), cs)
    One1(o) == Op2(e, o, Id(M)) One2(o) == Op2(e, Id(N), o) IN
  ModeAvg(N, Nn, Ex(e, One1(Num(N)), cs)[1], Ex(e, One1(Mono(Num(N), Num(N))), cs)[1], a, Ex(e, One1(Mono(Low(N), Low(N))), cs), 0, "Q") \o
  ModeAvg(M, Nn, Ex(e, One2(Num(M)), cs)[1], Ex(e, One2(Mono(Num(M), Num(M))), cs)[1], b, Ex(e, One2(Mono(Low(M), Low(M))), cs), 0, "Q") \o
  << <<Nn * (ab[1] + adb[1]) - 2 * a[1] * b[1], Nn * Nn, 10>>, <<Nn * (ab[2] + adb[2]) - 2 * a[1] * b[2], Nn * Nn, 10>>,
     <<Nn * (ab[2] - adb[2]) - 2 * a[2] * b[1], Nn * Nn, 10>>, <<Nn * (adb[1] - ab[1]) - 2 * a[2] * b[2], Nn * Nn, 10>> >>
QMCorrAvg(e, cs) == LET M == e.dims[2] Nn == NormC(e, cs)
    sad == Ex(e, Op2(e, Low(2), Up(M)), cs) sa == Ex(e, Op2(e, Low(2), Low(M)), cs)
    za == Ex(e, Op2(e, Diag(2, LAMBDA n : <<2 * n - 1, 0>>), Low(M)), cs) IN
  << <<sad[1], Nn, 0>>, <<sad[2], Nn, 0>>, <<sa[1], Nn, 0>>, <<sa[2], Nn, 0>>, <<za[1], 2 * Nn, 0>>, <<za[2], 2 * Nn, 0>> >>
Avg(e, cs) == CASE e.c.k \in {"mode", "modeAlt", "bichro", "homo"} -> ModeAvgOf(e, cs, e.c.p.av)
   [] e.c.k \in {"qbit", "p2la"} -> QbitAvg(e, cs)
   [] e.c.k = "spin" -> SpinAvg(e, cs, e.c.p.TS)
   [] e.c.k = "part" -> PartAvg(e, cs)
   [] e.c.k = "ml" -> RdoAvg(e, cs, e.c.p.off)
   [] e.c.k = "rdo" -> RdoAvg(e, cs, e.c.p.off)
   [] e.c.k = "noex" -> LET a == ModeAvgOf(e, cs, "A") IN <<a[1], a[3], a[4]>>
   [] e.c.k = "mcorr" -> MCorrAvg(e, cs)
   [] e.c.k = "qmcorr" -> QMCorrAvg(e, cs)
   [] OTHER -> <<>>

\* ------------------------------------------------------------------ behaviour
Init == pc = "choose" /\ el = <<>> /\ hin = <<>> /\ hexp = <<>>
Choose == pc = "choose" /\ \E k \in Pick(Kinds) : \E p \in Pick(ParsOf(k)) : el' = [c |-> [k |-> k, p |-> p]] /\ pc' = "make" /\ UNCHANGED <<hin, hexp>>
Make == pc = "make" /\ el' = Prep(el.c) /\ pc' = "run" /\ UNCHANGED <<hin, hexp>>
Call(i, x) == hin' = Append(hin, i) /\ hexp' = Append(hexp, x) /\ UNCHANGED <<pc, el>>
Free1 == Len(el.dims) = 1
ChOn == {k \in 1..Len(el.ch) : el.ch[k].s2 > 0}
\* (a spin larger than 1/2, or turned, with relaxation is a known finding: kind spinR)
HasGen == ~(el.c.k \in {"mcorr", "qmcorr", "rdo", "noex"}) /\ ~(el.c.k = "spin" /\ el.c.p.loss /\ (el.c.p.TS > 1 \/ el.c.p.th # 0))
\* the second pump of a bichromatic mode keeps rotating: by do quarter turns in unit time relative to the first one
Bi == el.c.k \in {"bichro", "bichroT"}
Gen(t) == IF ~Bi THEN el.gen
          ELSE el.gen \o (LET z == Mul(el.c.p.eta2, IPow(-el.c.p.do * t)) u == PumpTerms(el.dims[1], z) IN [k \in 1..2 |-> Flatten(el.dims, u[k])])
G00 == SumFT(LAMBDA k : IF el.gen[k][1][1] = 1 THEN el.gen[k][1][2] ELSE Zero, 1, Len(el.gen))
CallG == \E t \in Pick(Times) : \E t0 \in Pick(IF el.c.k = "bichro" THEN {0} ELSE Times) : \E s \in Pick(1..NStates) : LET phi == Raw(el, s) y == Apply(Gen(IF el.c.k = "bichroT" /\ el.c.p.as THEN t - t0 ELSE t), phi) IN
   Call([op |-> "g", t |-> t, t0 |-> t0, phi |-> phi], [x \in 1..Len(phi) |-> IF el.modi THEN Sub(y[x], Mul(G00, phi[x])) ELSE y[x]])
\* the propagator is exp(L(t-t0)) with one L; in the Schroedinger picture there is none, in the unitary interaction picture it is unitary
CallU == \E t \in Pick(Times) : \E t0 \in Pick(Times) : \E s \in Pick(1..NStates) :
   Call([op |-> "u", t |-> t, t0 |-> t0, phi |-> Raw(el, s)], [fits |-> TRUE, master |-> TRUE])
CallJ == \E k \in Pick(ChOn) : \E s \in Pick(1..NStates) : LET phi == Raw(el, s) IN
   Call([op |-> "j", k |-> k - 1, s2 |-> el.ch[k].s2, phi |-> phi], Apply(el.ch[k].a, phi))
Comps == {<<s>> : s \in 1..NStates} \cup {<<s, s + 1>> : s \in 1..(NStates - 1)}
States(ss, top) == [i \in 1..Len(ss) |-> IF top THEN Raw(el, ss[i]) ELSE NoTop(el, Raw(el, ss[i]))]
CallR == \E ss \in Pick(Comps) : LET cs == States(ss, FALSE) Nn == NormC(el, cs) IN
   Nn > 0 /\ Call([op |-> "r", cs |-> cs, n |-> Nn, s2 |-> [k \in 1..Len(el.ch) |-> el.ch[k].s2]],
        [k \in 1..Len(el.ch) |-> ISum(LAMBDA i : Norm(el, Apply(el.ch[k].a, cs[i])), 1, Len(cs)) * (IF el.ch[k].s2 = 0 THEN 0 ELSE 1)])
\* one channel's Master-equation term; or, where one term stands for all the diffusive channels, their sum, up to a multiple of rho
Plain == IF el.split THEN ChOn ELSE ChOn \cap {1, 2}
CallS == \E k \in Pick(Plain) : \E ss \in Pick(Comps) : LET cs == States(ss, TRUE) ys == [i \in 1..Len(cs) |-> Apply(el.ch[k].a, cs[i])] IN
   Call([op |-> "s", k |-> k - 1, s2 |-> el.ch[k].s2, cs |-> cs],
        [x \in 1..Len(el.w) |-> [y \in 1..Len(el.w) |-> Rho(ys, x, y)]])
DiffAt(cs, x, y) == SumFT(LAMBDA k : LET A == el.ch[k].a ys == [i \in 1..Len(cs) |-> Apply(A, cs[i])] IN Scale(el.ch[k].s2, Rho(ys, x, y)), 3, Len(el.ch))
CallD == \E ss \in Pick(Comps) : LET cs == States(ss, TRUE) sum == ISum(LAMBDA k : el.ch[k].s2, 3, Len(el.ch)) IN
   Rho(cs, 1, 1) # Zero /\ Call([op |-> "d", from |-> 2, to |-> Len(el.ch) - 1, cs |-> cs],
        [x \in 1..Len(el.w) |-> [y \in 1..Len(el.w) |-> Sub(DiffAt(cs, x, y), Scale(sum, Rho(cs, x, y)))]])
CallA == \E ss \in Pick(Comps) : LET cs == States(ss, TRUE) av == Avg(el, cs) IN
   NormC(el, cs) > 0 /\ Call([op |-> "a", cs |-> cs, n |-> NormC(el, cs), sc |-> [i \in 1..Len(av) |-> <<av[i][2], av[i][3]>>]], [i \in 1..Len(av) |-> av[i][1]])
Possible(o) == CASE o = "g" -> HasGen [] o = "u" -> Free1 /\ HasGen [] o = "j" -> ChOn # {} [] o = "r" -> el.ch # <<>> [] o = "s" -> Plain # {} [] o = "d" -> ~el.split
                 [] OTHER -> ~(el.c.k \in {"timh", "jcq", "jcs", "cm", "dicke", "poc", "pac", "p2m", "mljc"})
Can == {o \in Ops : Possible(o)}
Run == pc = "run" /\ Len(hin) < MaxCalls /\ Can # {} /\ \E o \in Pick(Can) :
   CASE o = "g" -> CallG [] o = "u" -> CallU [] o = "j" -> CallJ [] o = "r" -> CallR [] o = "s" -> CallS [] o = "d" -> CallD [] OTHER -> CallA
Next == Choose \/ Make \/ Run
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ what makes an element physical (checked on the model itself)
Ready == pc = "run" /\ hin = <<>>
Mat(op) == LET D == Len(el.w) IN [x \in 1..D |-> [y \in 1..D |-> SumFT(LAMBDA k : IF op[k][x][1] = y THEN op[k][x][2] ELSE Zero, 1, Len(op))]]
\* minus four times half the sum of the squares of the jump operators, in the weighted basis; times two
JJ(Ms, x, y) == SumFT(LAMBDA k : Scale(el.ch[k].s2, SumFT(LAMBDA z : Scale(el.w[z], Mul(Conj(Ms[k][z][x]), Ms[k][z][y])), 1, Len(el.w))), 1, Len(el.ch))
Keep(x) == ~(el.cut /\ x = Len(el.w))
\* levels with different decay by spin relaxation are listed as a known finding
KnownUnphysical == el.c.k = "timh" \/ (el.c.k = "spinR" /\ el.c.p.as) \/ (el.c.k = "spin" /\ (el.c.p.ga # 0 /\ (~el.c.p.loss \/ el.c.p.TS > 1 \/ el.c.p.th # 0)))
Dissipative == Ready /\ HasGen /\ ~HasPart(el) /\ ~KnownUnphysical =>
   LET M == Mat(el.gen) Ms == [k \in 1..Len(el.ch) |-> Mat(el.ch[k].a)]
       Herm(x, y) == Add(Add(Scale(el.w[x], M[x][y]), Scale(el.w[y], Conj(M[y][x]))), Scale(4, JJ(Ms, x, y)))
   IN /\ \A x \in 1..Len(el.w) : \A y \in 1..Len(el.w) : (x # y /\ Keep(x) /\ Keep(y)) => Herm(x, y) = Zero
      /\ \A x \in 1..Len(el.w) : Keep(x) => Scale(el.w[1], Herm(x, x)) = Scale(el.w[x], Herm(1, 1))
ChOk == Ready => \A k \in 1..Len(el.ch) : el.ch[k].s2 >= 0
Emit == (pc = "run" /\ Len(hin) = MaxCalls) =>
  CSVWrite("%1$s", <<ToJson([in |-> [k |-> el.c.k, p |-> el.c.p, dims |-> el.dims, w |-> el.w, modi |-> el.modi, ops |-> hin], exp |-> [nch |-> Cardinality(ChOn), obs |-> hexp]])>>, IOEnv.OUT)
=============================================================================
