------------------------------- MODULE QData -------------------------------
(* Quantum data: a state given by a vector or by a density operator, and what a user does with it.  The state of the model is
   the representation, the exact data (Gaussian integers times 2^(-h/2) for vectors, 2^-h for operators) and the history. *)
EXTENDS Gauss, TLC, Json, CSV, IOUtils, FiniteSets
CONSTANTS Starts,     \* set of [dims, seed]
          Seeds,      \* seeds of second states
          Ops,        \* enabled operations
          Orders(_),  \* ordered axis choices for a rank
          MaxOps
VARIABLES dims, rep, vec, mat, h, hist
vars == <<dims, rep, vec, mat, h, hist>>
Amp(s, k) == <<((s * k * k + 3 * k + s) % 5) - 2, ((k * k + s * k + 1) % 4) - 1>>
State(s, n) == [k \in 1..n |-> Amp(s, k)]
N == Prod(dims)
Rank == Len(dims)
Rho == IF rep = "sv" THEN Dyad(vec, vec) ELSE mat     \* the density operator, whatever the representation
Rec(o) == hist' = Append(hist, o)
Init == \E c \in Starts : /\ dims = c.dims /\ rep = "sv" /\ vec = State(c.seed, Prod(c.dims)) /\ mat = <<>> /\ h = 0
                          /\ hist = <<[op |-> "start", dims |-> c.dims, psi |-> State(c.seed, Prod(c.dims))]>>
On(o) == o \in Ops /\ Len(hist) <= MaxOps
Dyadize == On("do") /\ rep = "sv" /\ rep' = "do" /\ mat' = Dyad(vec, vec) /\ vec' = <<>> /\ Rec([op |-> "do"]) /\ UNCHANGED <<dims, h>>
\* the projector assigned to an existing density operator
Assign == On("assign") /\ rep = "sv" /\ rep' = "do" /\ mat' = Dyad(vec, vec) /\ vec' = <<>> /\ Rec([op |-> "assign"]) /\ UNCHANGED <<dims, h>>
AddS(s) == LET p == State(s, N) IN
           /\ On("add") /\ h = 0
           /\ \/ rep = "sv" /\ vec' = [k \in 1..N |-> Add(vec[k], p[k])] /\ Rec([op |-> "add", psi |-> p]) /\ UNCHANGED mat
              \/ rep = "sv" /\ vec' = [k \in 1..N |-> Sub(vec[k], p[k])] /\ Rec([op |-> "sub", psi |-> p]) /\ UNCHANGED mat
              \/ \E w \in 1..2 : rep = "do" /\ mat' = MAdd(mat, MMul(<<w, 0>>, Dyad(p, p))) /\ Rec([op |-> "addto", psi |-> p, w |-> w]) /\ UNCHANGED vec
              \/ rep = "do" /\ mat' = MAdd(mat, Dyad(p, p)) /\ Rec([op |-> "add", psi |-> p]) /\ UNCHANGED vec
           /\ UNCHANGED <<dims, rep, h>>
Times == /\ On("mul") /\ \/ \E c \in {<<0, 1>>, <<2, -1>>} : rep = "sv" /\ vec' = [k \in 1..N |-> Mul(c, vec[k])] /\ Rec([op |-> "mul", c |-> c]) /\ UNCHANGED mat
                         \/ rep = "do" /\ mat' = MMul(<<3, 0>>, mat) /\ Rec([op |-> "mul", c |-> <<3, 0>>]) /\ UNCHANGED vec
         /\ UNCHANGED <<dims, rep, h>>
Neg == /\ On("neg") /\ \/ rep = "sv" /\ vec' = [k \in 1..N |-> Scale(-1, vec[k])] /\ UNCHANGED mat
                       \/ rep = "do" /\ mat' = MMul(<<-1, 0>>, mat) /\ UNCHANGED vec
       /\ Rec([op |-> "neg"]) /\ UNCHANGED <<dims, rep, h>>
Copy == On("copy") /\ Rec([op |-> "copy"]) /\ UNCHANGED <<dims, rep, vec, mat, h>>
\* tensor product with a second state on further axes
Times2(d, s) == /\ On("prod") /\ rep = "sv" /\ Rank < 3 /\ N * d <= 12 /\ h = 0
                /\ LET p == State(s, d) IN /\ dims' = Append(dims, d) /\ vec' = Cat(LAMBDA i : [j \in 1..d |-> Mul(vec[i], p[j])], 1, N)
                                           /\ Rec([op |-> "prod", dims |-> <<d>>, psi |-> p])
                /\ UNCHANGED <<rep, mat, h>>
Reduce(v) == /\ On("red") /\ rep' = "do" /\ vec' = <<>> /\ mat' = PTrace(Rho, dims, v) /\ dims' = Select(dims, v)
             /\ Rec([op |-> "red", v |-> v]) /\ UNCHANGED h
\* packing into reals and back
Pack == /\ On("pack") /\ rep' = "do" /\ vec' = <<>> /\ mat' = Rho /\ Rec([op |-> "pack"]) /\ UNCHANGED <<dims, h>>
\* Fourier transform of one axis: f(k) = (-1)^k sum_x (-1)^x exp(-+ 2 pi i x k / n) psi(x) / sqrt(n)
W(n, sgn, x, k) == LET u == (4 \div n) * x * k IN IPow(2 * x + 2 * k + (IF sgn = 1 THEN -u ELSE u) + 4 * 16)
\* amplitude transform along axis a (as a matrix on the flat index)
F1(a, sgn, f, i) == LET ix == Unflat(i - 1, dims) n == dims[a] IN
                    SumFT(LAMBDA x : Mul(W(n, sgn, x, ix[a]), f[1 + Flat([ix EXCEPT ![a] = x], dims)]), 0, n - 1)
FVec(a, sgn, f) == [i \in 1..Len(f) |-> F1(a, sgn, f, i)]
Transp(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> m[j][i]]]
\* rho -> F rho F^dagger
FMat(a, sgn, m) == LET r == Transp([j \in 1..Len(m) |-> FVec(a, sgn, [i \in 1..Len(m) |-> m[i][j]])])
                   IN [i \in 1..Len(m) |-> FVec(a, -sgn, r[i])]
Log2(n) == CASE n = 1 -> 0 [] n = 2 -> 1 [] OTHER -> 2
Fourier(a, sgn) == /\ On("fft") /\ dims[a] \in {1, 2, 4}
                   /\ IF dims[a] = 1 THEN UNCHANGED <<vec, mat, h>>
                      ELSE /\ h' = h + Log2(dims[a])
                           /\ IF rep = "sv" THEN vec' = FVec(a, sgn, vec) /\ UNCHANGED mat ELSE mat' = FMat(a, sgn, mat) /\ UNCHANGED vec
                   /\ Rec([op |-> "fft", a |-> a - 1, dir |-> sgn]) /\ UNCHANGED <<dims, rep>>
Next == \/ Dyadize \/ Assign \/ Times \/ Neg \/ Copy \/ Pack \/ (\E s \in Seeds : AddS(s)) \/ (\E d \in 1..3 : \E s \in Seeds : Times2(d, s))
        \/ \E v \in Orders(Rank) : Reduce(v)
        \/ \E a \in 1..Rank : \E sgn \in {-1, 1} : Fourier(a, sgn)
Spec == Init /\ [][Next]_vars
\* ---- design properties
HermitianAlways == Hermitian(Rho)
TraceIsReal == Trace(Rho)[2] = 0
\* reduction preserves the trace, and commutes with further reduction; a transform preserves trace and purity
ReduceKeepsTrace == \A v \in Orders(Rank) : Trace(PTrace(Rho, dims, v)) = Trace(Rho)
ReduceTwice == Rank = 3 => \A v \in Orders(3) : Len(v) = 2 => PTrace(PTrace(Rho, dims, v), Select(dims, v), <<1>>) = PTrace(Rho, dims, <<v[2]>>)
FourierUndone == (rep = "sv" /\ h = 0) => \A a \in 1..Rank : dims[a] \in {2, 4} =>
                   FVec(a, 1, FVec(a, -1, vec)) = [k \in 1..N |-> Scale(dims[a], vec[k])]
Deflated(m) == LET n == Len(m) IN [i \in 1..n |-> m[i][i][1]] \o Cat(LAMBDA i : Cat(LAMBDA j : m[i][j], i + 1, n), 1, n - 1)
\* ---- what can be observed at the end
Obs == LET m == Rho b == State(1, N) IN
  [dims |-> dims, m |-> m, tr |-> Trace(m)[1], frob |-> Frob2(m), defl |-> Deflated(m), diag |-> [i \in 1..N |-> m[i][i][1]],
   slices |-> Trace(m)[1], ok |-> TRUE]
  @@ (IF rep = "sv" /\ N <= 6 THEN [v |-> vec, dyad |-> Dyad(vec, b), braket |-> SumFT(LAMBDA k : Mul(Conj(b[k]), vec[k]), 1, N), norm2 |-> Trace(m)[1]]
      ELSE [v |-> <<>>, dyad |-> <<>>, braket |-> <<>>, norm2 |-> 0])
Emit == CSVWrite("%1$s", <<ToJson([in |-> [ops |-> hist, h |-> h, b |-> State(1, N)], exp |-> Obs])>>, IOEnv.OUT)
=============================================================================
