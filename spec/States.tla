------------------------------- MODULE States -------------------------------
(* Initial conditions. A command line assigns parameters, one word after the other, of two sets of element parameters (the second
   one with the modifier B); then a state is asked for, either by the dispatcher working from one of the sets or by one of the
   functions it dispatches to. The widths of wave packets are such that Gaussians are powers of two on the grid:
     match "x": exp(-(x-x0)^2/4s^2) = 2^-(j-j0)^2 on the position grid of 2^fin points, "k": likewise in momentum,
     match "h": (x-x0)/s = j-j0, for eigenstates of the harmonic oscillator, where exp(-(j-j0)^2/2) is left to the harness. *)
EXTENDS Gauss, TLC, Json, CSV, IOUtils, FiniteSets
CONSTANTS Tabs, MaxWords, Simulating, Cutoffs, Focks, Alphas, Qbits, Fins, Packets(_), HOs, Pumps, Tokens
VARIABLES tab, words, pars, req, exp, done
vars == <<tab, words, pars, req, exp, done>>
Mods == {"", "B"}
NoReq == [f |-> "none"]
\* at random when simulating: one parameter as likely as the other, however many values it has
Pick(S, st) == IF Simulating THEN {RandomElement(S)} ELSE S
\* ---- defaults: those of the documentation of the parameters
DefaultOf(t) == CASE t = "mode" -> [cutoff |-> 10, minitFock |-> 0, minit |-> Zero]
                  [] t = "qbit" -> [qbitInit |-> Zero]
                  [] t = "particle" -> [fin |-> 6, HOinitn |-> -1, pinit |-> [x0 |-> -2, k0 |-> 0, sig |-> "default", ink |-> FALSE]]
                  [] t = "pumped" -> [fin |-> 6, HOinitn |-> -1, pinit |-> [x0 |-> -2, k0 |-> 0, sig |-> "default", ink |-> FALSE],
                                      vClass |-> [sgn |-> -1, om |-> 1, match |-> "default"], omrec |-> 1]
                  [] OTHER -> [type |-> 0]
Names(t) == DOMAIN DefaultOf(t)
ValuesOf(n) == CASE n = "cutoff" -> Cutoffs [] n = "minitFock" -> Focks [] n = "minit" -> Alphas [] n = "qbitInit" -> Qbits
              [] n = "fin" -> Fins [] n = "HOinitn" -> HOs [] n = "pinit" -> Packets(tab) [] n = "vClass" -> Pumps [] n = "omrec" -> {1, 2}
              [] OTHER -> {}
\* ---- states
RECURSIVE CPow(_, _)
CPow(a, n) == IF n = 0 THEN One ELSE Mul(a, CPow(a, n - 1))
Unit(n, dim, ph) == [i \in 1..dim |-> IF i = n + 1 THEN IPow(ph) ELSE Zero]
Fock(n, dim, ph) == IF n >= dim THEN [refused |-> TRUE, v |-> <<>>, norm |-> FALSE] ELSE [refused |-> FALSE, v |-> Unit(n, dim, ph), norm |-> TRUE]
\* in units of exp(-|a|^2/2)/sqrt(n!)
Coherent(a, dim) == [refused |-> FALSE, v |-> [i \in 1..dim |-> CPow(a, i - 1)], norm |-> FALSE]
ISqrt(k) == CHOOSE r \in 0..25 : r * r = k
QbitState(c) == [refused |-> FALSE, v |-> <<<<ISqrt(625 - Abs2(c)), 0>>, c>>, norm |-> TRUE]
\* ---- particles
NP(f) == Pow2(f)
SqrI(x) == x * x
\* position grid: x_j = -pi + 2 pi j/N; the packet's x0 is in units of pi/4
XIndex(x0, f) == IF f = 2 THEN (x0 + 4) \div 2 ELSE x0 + 4
XPhase(k0, j, f) == IF f = 2 THEN k0 * (j - 2) ELSE (k0 \div 2) * (j - 4)
XOk(p, f) == /\ (f = 2 => p.x0 % 2 = 0) /\ (f = 3 => p.k0 % 2 = 0) /\ f \in {2, 3}
             /\ XIndex(p.x0, f) \in 0..(NP(f) - 1)
KOk(p, f) == /\ p.x0 % 2 = 0 /\ p.k0 \in (-(NP(f) \div 2))..(NP(f) \div 2 - 1)
MaxSq(c, n) == IF c > n - 1 - c THEN c * c ELSE SqrI(n - 1 - c)
GaussX(p, f) == LET j0 == XIndex(p.x0, f) m == MaxSq(j0, NP(f)) IN [j \in 1..NP(f) |-> Scale(Pow2(m - SqrI(j - 1 - j0)), IPow(XPhase(p.k0, j - 1, f)))]
GaussK(p, f) == LET c == p.k0 + (NP(f) \div 2) m == MaxSq(c, NP(f)) IN
   [i \in 1..NP(f) |-> Scale(Pow2(m - SqrI(i - 1 - c)), IPow(-(p.x0 \div 2) * (i - 1 - (NP(f) \div 2))))]
RECURSIVE Hermite(_, _)
Hermite(n, m) == CASE n = 0 -> 1 [] n = 1 -> 2 * m [] OTHER -> 2 * m * Hermite(n - 1, m) - 2 * (n - 1) * Hermite(n - 2, m)
HO(n, p, f) == LET j0 == XIndex(p.x0, f) IN [j \in 1..NP(f) |-> <<Hermite(IF n < 0 THEN 0 ELSE n, j - 1 - j0), 0>>]
\* an index where the state does not vanish
AbsI(x) == IF x < 0 THEN -x ELSE x
Size(z) == AbsI(z[1]) + AbsI(z[2])
RefOf(v) == CHOOSE i \in 1..Len(v) : v[i] # Zero /\ \A k \in 1..Len(v) : Size(v[k]) <= Size(v[i])
Packet(v, basis, j0) == [refused |-> FALSE, v |-> v, norm |-> TRUE, basis |-> basis, j0 |-> j0]
\* the packet actually used: a vanishing width of a pumped particle means that of the ground state of its potential
Width(q, pump, what) == IF q.pinit.sig # "zero" THEN q.pinit.sig ELSE IF pump /\ q.vClass.om = q.omrec THEN q.vClass.match ELSE "undefined"
WPInK(q, pump) == q.pinit.sig # "zero" /\ q.pinit.ink
WPOk(q, pump) == LET w == Width(q, pump, "wp") p == q.pinit f == q.fin IN
  /\ f \in {2, 3}
  /\ IF WPInK(q, pump) THEN w = "k" /\ KOk(p, f) /\ MaxSq(p.k0 + (NP(f) \div 2), NP(f)) <= 25
     ELSE w = (IF f = 2 THEN "x2" ELSE "x3") /\ XOk(p, f) /\ MaxSq(XIndex(p.x0, f), NP(f)) <= 25
WP(q, pump) == IF WPInK(q, pump) THEN Packet(GaussK(q.pinit, q.fin), "k", 0) ELSE Packet(GaussX(q.pinit, q.fin), "x", 0)
HOOk(q, pump) == LET w == Width(q, pump, "ho") p == q.pinit f == q.fin IN
  /\ f \in {2, 3} /\ w = (IF f = 2 THEN "h2" ELSE "h3") /\ XOk(p, f) /\ MaxSq(XIndex(p.x0, f), NP(f)) <= 25
HOState(q) == Packet(HO(q.HOinitn, q.pinit, q.fin), "h", XIndex(q.pinit.x0, q.fin))
\* ---- what is asked for
Ask(m) ==
  LET q == pars[m] IN
  \/ /\ tab = "mode" /\ req' = [f |-> "init", mod |-> m, scaled |-> q.minitFock = 0]
     /\ exp' = IF q.minitFock # 0 THEN Fock(q.minitFock, q.cutoff, 0) ELSE Coherent(q.minit, q.cutoff)
  \/ /\ tab = "mode" /\ m = "" /\ words = <<>>
     /\ \/ \E n \in Focks : \E d \in Cutoffs : \E ph \in 0..3 : req' = [f |-> "fock", n |-> n, dim |-> d, phase |-> ph, scaled |-> FALSE] /\ exp' = Fock(n, d, ph)
        \/ \E a \in Alphas : \E d \in Cutoffs : req' = [f |-> "coherent", alpha |-> a, dim |-> d, scaled |-> TRUE] /\ exp' = Coherent(a, d)
        \* high Fock-state elements, with amplitude 12 i^k: phases only
        \/ \E k \in 0..3 : LET ns == <<0, 1, 2, 50, 143, 169, 170, 171, 172, 199>> IN
             req' = [f |-> "high", k |-> k, dim |-> 200, ns |-> ns] /\ exp' = [refused |-> FALSE, v |-> [i \in 1..Len(ns) |-> IPow(k * ns[i])], norm |-> TRUE]
  \/ /\ tab = "qbit" /\ req' = [f |-> "init", mod |-> m] /\ exp' = QbitState(q.qbitInit)
  \/ /\ tab = "qbit" /\ words = <<>> /\ m = ""
     /\ \E b \in {0, 1} : req' = [f |-> IF b = 0 THEN "state0" ELSE "state1"] /\ exp' = [refused |-> FALSE, v |-> [i \in 1..2 |-> IF i = b + 1 THEN <<25, 0>> ELSE Zero], norm |-> TRUE]
  \/ /\ tab \in {"particle", "pumped"}
     /\ LET pump == tab = "pumped" IN
        \/ \E kf \in BOOLEAN : \E fn \in {"wp", "wpDirect", "init"} :
             /\ (fn = "wpDirect" => q.pinit.sig # "zero") /\ (fn = "init" => kf /\ q.HOinitn < 0)
             /\ WPOk(q, pump) /\ exp' = WP(q, pump)
             /\ req' = [f |-> fn, mod |-> m, kf |-> kf, basis |-> exp'.basis, j0 |-> 0, ref |-> RefOf(exp'.v), at |-> exp'.v[RefOf(exp'.v)]]
        \/ \E kf \in BOOLEAN : \E fn \in {"ho", "hoDirect", "init"} :
             /\ (fn = "hoDirect" => q.pinit.sig # "zero") /\ (fn = "init" => kf /\ q.HOinitn >= 0)
             /\ HOOk(q, pump) /\ exp' = HOState(q)
             /\ req' = [f |-> fn, mod |-> m, kf |-> kf, basis |-> "h", j0 |-> exp'.j0, ref |-> RefOf(exp'.v), at |-> exp'.v[RefOf(exp'.v)], n |-> q.HOinitn]
\* ---- enumerated words read one after the other from a stream: once a word is not understood, nothing more is read
Vocabulary(t) == CASE t = "picture" -> <<"IP", "UIP", "Sch">> [] t = "method" -> <<"single", "ensemble", "master">> [] OTHER -> <<"Sin", "Cos", "Plus", "Minus">>
Enums == {"picture", "method", "modefunction"}
ReadWord(cur, w) == LET voc == Vocabulary(tab) IN
   IF ~cur.good THEN cur ELSE IF w \in RangeOf(voc) THEN [good |-> TRUE, val |-> w] ELSE [good |-> FALSE, val |-> cur.val]
RECURSIVE ReadAll(_, _)
ReadAll(cur, ws) == IF ws = <<>> THEN <<>> ELSE LET c == ReadWord(cur, ws[1]) IN <<c>> \o ReadAll(c, Tail(ws))
WordSet(t) == RangeOf(Vocabulary(t)) \cup Tokens
Init == /\ IF Simulating THEN tab = "start" ELSE tab \in Tabs
        /\ words = <<>> /\ req = NoReq /\ exp = [refused |-> FALSE] /\ done = FALSE
        /\ pars = IF Simulating THEN <<>> ELSE [m \in Mods |-> DefaultOf(tab)]
Start == /\ tab = "start" /\ tab' \in Pick(Tabs, words) /\ pars' = [m \in Mods |-> DefaultOf(tab')] /\ UNCHANGED <<words, req, exp, done>>
\* particles: a complete set of parameters in one go
Bulk == /\ ~done /\ tab \in {"particle", "pumped"} /\ words = <<>>
        /\ \E m \in Pick(Mods, words) : \E f \in Pick(Fins, words) : \E h \in Pick(HOs, words) : \E p \in Pick(Packets(tab), words) :
           \E v \in Pick(IF tab = "particle" THEN {0} ELSE IF p.sig = "zero" THEN Pumps ELSE {CHOOSE y \in Pumps : TRUE}, words) :
           \E o \in (IF tab = "particle" THEN {0} ELSE IF p.sig = "zero" THEN {1, 2} ELSE {1}) :
             LET ws == <<[name |-> "pinit", mod |-> m, val |-> p], [name |-> "fin", mod |-> m, val |-> f], [name |-> "HOinitn", mod |-> m, val |-> h]>>
                       \o (IF tab = "pumped" THEN <<[name |-> "omrec", mod |-> m, val |-> o], [name |-> "vClass", mod |-> m, val |-> v]>> ELSE <<>>)
             IN words' = ws /\ pars' = [pars EXCEPT ![m] = [n \in Names(tab) |-> LET i == CHOOSE i \in 1..Len(ws) : ws[i].name = n IN ws[i].val]]
        /\ UNCHANGED <<tab, req, exp, done>>
Set == /\ ~done /\ tab # "start" /\ tab \notin Enums /\ Len(words) < MaxWords
       /\ \E m \in Pick(Mods, words) : \E n \in Pick(Names(tab), words) : \E x \in Pick(ValuesOf(n), words) :
            /\ words' = Append(words, [name |-> n, mod |-> m, val |-> x])
            /\ pars' = [pars EXCEPT ![m][n] = x]
       /\ UNCHANGED <<tab, req, exp, done>>
AskAny == /\ ~done /\ tab # "start" /\ tab \notin Enums /\ (\E m \in Mods : Ask(m)) /\ done' = TRUE /\ UNCHANGED <<tab, words, pars>>
ReadSome == /\ ~done /\ tab \in Enums
            /\ \E n \in Pick(1..(IF Simulating THEN 5 ELSE 3), words) : \E ws \in Pick([1..n -> WordSet(tab)], words) : \E v0 \in Pick(RangeOf(Vocabulary(tab)), words) :
                 words' = ws /\ req' = [f |-> "read", from |-> v0] /\ exp' = [reads |-> ReadAll([good |-> TRUE, val |-> v0], ws)]
            /\ done' = TRUE /\ UNCHANGED <<tab, pars>>
Next == Start \/ Bulk \/ Set \/ AskAny \/ ReadSome
Spec == Init /\ [][Next]_vars
\* ---- design
LastWins == (tab # "start" /\ tab \notin Enums) => \A m \in Mods : \A n \in Names(tab) :
   LET ws == {i \in 1..Len(words) : words[i].name = n /\ words[i].mod = m} IN
   pars[m][n] = IF ws = {} THEN DefaultOf(tab)[n] ELSE words[CHOOSE i \in ws : \A k \in ws : k <= i].val
\* the coherent state is an eigenvector of the annihilation operator, qubit states are normalised, oscillator states have a parity
Physical ==
  /\ (done /\ tab = "mode" /\ req.f = "init" /\ req.scaled) => \A i \in 1..(Len(exp.v) - 1) : exp.v[i + 1] = Mul(pars[req.mod].minit, exp.v[i])
  /\ (done /\ tab = "qbit") => Abs2(exp.v[1]) + Abs2(exp.v[2]) = 625
  /\ (done /\ tab \in {"particle", "pumped"} /\ req.basis = "h") =>
        \A d \in 0..3 : LET a == req.j0 + 1 - d b == req.j0 + 1 + d IN
           (a \in 1..Len(exp.v) /\ b \in 1..Len(exp.v)) => exp.v[a][1] = (IF req.n >= 0 /\ req.n % 2 = 1 THEN -1 ELSE 1) * exp.v[b][1]
Emit == ~done \/ CSVWrite("%1$s", <<ToJson([in |-> [tab |-> tab, words |-> words, req |-> req],
   exp |-> IF tab \in Enums THEN [reads |-> exp.reads] ELSE [refused |-> exp.refused, v |-> exp.v, norm |-> exp.norm]])>>, IOEnv.OUT)
=============================================================================
