----------------------------- MODULE PhaseSpace -----------------------------
(* Quasi-probability distributions of a mode and maps of them. The state is given by R with rho_mn = sqrt(m! n!) R_mn, or by c with
   psi_n = sqrt(n!) c_n, in Gaussian integers, and the distributions are evaluated at x+iy = b/2, b a Gaussian integer, where
      pi exp(|b|^2/2) W = sum_n (-1)^n n! L_n(|b|^2) R_nn + 2 Re sum_{k>0} conj(b)^k sum_n (-1)^n n! L_n^k(|b|^2) R_{n+k,n}
      4^(d-1) exp(|b|^2/4) Q = sum_mn 2^(2d-2-m-n) conj(b)^m b^n R_mn
   are integers. A scan evaluates a distribution on the grid that the limits and the step (in units of 1/2) describe. *)
EXTENDS Gauss, TLC, Json, CSV, IOUtils, FiniteSets
CONSTANTS DimsP, SeedsP, Points, Trunc, Limits, StepsP
VARIABLES kind, d, dat, req, exp
vars == <<kind, d, dat, req, exp>>
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE IF k < 0 \/ k > n THEN 0 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
RECURSIVE PowI(_, _)
PowI(x, n) == IF n = 0 THEN 1 ELSE x * PowI(x, n - 1)
RECURSIVE PowC(_, _)
PowC(z, n) == IF n = 0 THEN One ELSE Mul(z, PowC(z, n - 1))
Sgn(n) == IF n % 2 = 0 THEN 1 ELSE -1
\* n! L_n^k(x)
Lag(n, k, x) == ISum(LAMBDA i : Sgn(i) * Binom(n + k, n - i) * (Fact(n) \div Fact(i)) * PowI(x, i), 0, n)
\* ---- the states
Entry(s, i, j) == <<((s * i * i + 3 * j + s) % 5) - 2, ((i + s * j * j + 1) % 4) - 1>>
Herm(s, n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<((s * i + i) % 4), 0>> ELSE IF i < j THEN Entry(s, i, j) ELSE Conj(Entry(s, j, i))]]
Vect(s, n) == [i \in 1..n |-> Entry(s, i, 2 * i + 1)]
RMat(k, x) == IF k = "psi" THEN Dyad(x, x) ELSE x
\* ---- the distributions, of the leading t x t block
Wig(m, b, t) == LET r == Abs2(b) IN
   ISum(LAMBDA n : Sgn(n) * Lag(n, 0, r) * m[n + 1][n + 1][1], 0, t - 1)
   + 2 * ISum(LAMBDA k : Mul(PowC(Conj(b), k), SumFT(LAMBDA n : Scale(Sgn(n) * Lag(n, k, r), m[n + k + 1][n + 1]), 0, t - 1 - k))[1], 1, t - 1)
QFn(m, b) == LET n == Len(m) IN
   SumFT(LAMBDA i : SumFT(LAMBDA j : Scale(Pow2(2 * n - i - j), Mul(Mul(PowC(Conj(b), i - 1), PowC(b, j - 1)), m[i][j])), 1, n), 1, n)[1]
Used(t) == IF t # 0 /\ t < d THEN t ELSE d
ValueOf(f, b, t) == IF f = "wigner" THEN Wig(RMat(kind, dat), b, Used(t)) ELSE QFn(RMat(kind, dat), b)
RECURSIVE UpTo(_, _, _)
UpTo(l, u, s) == IF l >= u THEN <<>> ELSE <<l>> \o UpTo(l + s, u, s)
\* a nonzero symmetric limit overrides the two individual ones
Range1(lim, s) == IF lim.ul # 0 THEN UpTo(-lim.ul, lim.ul, s) ELSE UpTo(lim.l, lim.u, s)
Init == /\ kind \in {"psi", "rho"} /\ d \in DimsP /\ req = [f |-> "none"] /\ exp = <<>>
        /\ \E s \in SeedsP : dat = IF kind = "psi" THEN Vect(s, d) ELSE Herm(s, d)
Evaluate == /\ req.f = "none"
            /\ \E f \in {"wigner", "q"} : \E t \in (IF f = "wigner" THEN Trunc ELSE {0}) :
                 req' = [f |-> f, trunc |-> t, at |-> Points] /\ exp' = [i \in 1..Len(Points) |-> ValueOf(f, Points[i], t)]
            /\ UNCHANGED <<kind, d, dat>>
\* the line of a point: x, y in units of 1/2, value; a block of lines for each x
Scan == /\ req.f = "none"
        /\ \E f \in {"wigner", "q"} : \E lx \in Limits : \E ly \in Limits : \E s \in StepsP : \E t \in Trunc :
             /\ req' = [f |-> "scan", dist |-> f, lx |-> lx, ly |-> ly, step |-> s, trunc |-> t]
             /\ exp' = LET xs == Range1(lx, s) ys == Range1(ly, s) IN
                  [i \in 1..Len(xs) |-> [j \in 1..Len(ys) |-> <<xs[i], ys[j], ValueOf(f, <<xs[i], ys[j]>>, t)>>]]
        /\ UNCHANGED <<kind, d, dat>>
Next == Evaluate \/ Scan
Spec == Init /\ [][Next]_vars
\* ---- design: turning the state turns the distributions, Q of a state vector is nowhere negative, the origin tells the parity
Turned == [i \in 1..d |-> [j \in 1..d |-> Mul(IPow(i - j), RMat(kind, dat)[i][j])]]
Rotation == req.f \in {"wigner", "q"} => \A i \in 1..Len(Points) : LET ib == Mul(<<0, 1>>, Points[i]) IN
   exp[i] = IF req.f = "wigner" THEN Wig(Turned, ib, Used(req.trunc)) ELSE QFn(Turned, ib)
NonNegative == (req.f = "q" /\ kind = "psi") => \A i \in 1..Len(Points) : exp[i] >= 0
Emit == req.f = "none" \/ CSVWrite("%1$s", <<ToJson([in |-> [kind |-> kind, d |-> d, dat |-> dat, req |-> req], exp |-> [v |-> exp]])>>, IOEnv.OUT)
=============================================================================
