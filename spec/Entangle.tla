------------------------------ MODULE Entangle ------------------------------
(* Entanglement measures of density operators whose answer is known exactly.
   "block": an operator whose partial transpose is block diagonal with blocks ((a,c),(c*,a)), |c| integer, hence with the exact
            spectrum a-|c|, a+|c|: negativity = (sum of moduli - 1)/2.
   "pure":  a vector cut into two parts, one of them two dimensional: negativity^2 = determinant of the reduced operator.
   "mix":   a diagonal operator with weights such that every marginal is a power of two: entropies in units of log 2. *)
EXTENDS Gauss, TLC, Json, CSV, IOUtils, FiniteSets
CONSTANTS Dims, Subsets(_), Seeds, Kinds
VARIABLES kind, dims, v, data, exp
vars == <<kind, dims, v, data, exp>>
N == Prod(dims)
\* partial transpose with respect to the axes v
PTIndex(i, j) == LET a == Unflat(i - 1, dims) b == Unflat(j - 1, dims) IN
   <<1 + Flat([k \in 1..Len(dims) |-> IF (k - 1) \in RangeOf(v) THEN b[k] ELSE a[k]], dims),
     1 + Flat([k \in 1..Len(dims) |-> IF (k - 1) \in RangeOf(v) THEN a[k] ELSE b[k]], dims)>>
PT(m) == [i \in 1..N |-> [j \in 1..N |-> LET x == PTIndex(i, j) IN m[x[1]][x[2]]]]
\* ---- block: the pairs (1+o,2+o), (3+o,4+o), ... , or (k, N+1-k)
Units == <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>
Partner(i, s) == CASE s % 3 = 0 -> (IF i % 2 = 1 THEN (IF i = N THEN i ELSE i + 1) ELSE i - 1)
                   [] s % 3 = 1 -> N + 1 - i
                   [] OTHER -> (IF i = 1 THEN i ELSE IF i % 2 = 0 THEN (IF i = N THEN i ELSE i + 1) ELSE i - 1)
Low(i, s) == IF Partner(i, s) < i THEN Partner(i, s) ELSE i
DiagOf(i, s) == 1 + ((Low(i, s) * s) % 3)
OffOf(i, s) == (Low(i, s) + s) % 4           \* modulus of the coupling of the pair
Q(s) == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN <<DiagOf(i, s), 0>>
           ELSE IF j = Partner(i, s) THEN LET u == Scale(OffOf(i, s), Units[1 + (Low(i, s) % 4)]) IN IF i < j THEN u ELSE Conj(u) ELSE Zero]]
Abs(x) == IF x < 0 THEN -x ELSE x
EigAbs(s) == ISum(LAMBDA i : IF Partner(i, s) = i THEN DiagOf(i, s)
                             ELSE IF i < Partner(i, s) THEN Abs(DiagOf(i, s) - OffOf(i, s)) + DiagOf(i, s) + OffOf(i, s) ELSE 0, 1, N)
\* ---- pure
Amp(s, k) == <<((s * k * k + 3 * k + s) % 5) - 2, ((k * k + s * k + 1) % 4) - 1>>
Psi(s) == [k \in 1..N |-> Amp(s, k)]
Cmpl == Rest(v, 0, Len(dims))
Det2(m) == Mul(m[1][1], m[2][2])[1] - Mul(m[1][2], m[2][1])[1]
\* ---- mix
Log2(w) == CASE w = 1 -> 0 [] w = 2 -> 1 [] w = 4 -> 2 [] OTHER -> 3
Dyadic(w) == w \in {0, 1, 2, 4, 8}
DiagM(w) == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN <<w[i], 0>> ELSE Zero]]
\* in units of log(2)/8, the weights being eighths
Ent(w) == ISum(LAMBDA i : IF w[i] = 0 THEN 0 ELSE w[i] * (3 - Log2(w[i])), 1, Len(w))
Marg(w, u) == LET m == PTrace(DiagM(w), dims, u) IN [i \in 1..Len(m) |-> m[i][i][1]]
Weights(s) == CASE s % 4 = 0 -> [i \in 1..N |-> IF i = 1 \/ i = N THEN 4 ELSE 0]
                [] s % 4 = 1 -> [i \in 1..N |-> IF i <= 4 THEN 2 ELSE 0]
                [] s % 4 = 2 -> [i \in 1..N |-> IF i = 1 THEN 4 ELSE IF i = N THEN 2 ELSE IF i \in {2, 3} THEN 1 ELSE 0]
                [] OTHER -> [i \in 1..N |-> IF i \in {1, 2, N - 1, N} THEN 2 ELSE 0]
Init == /\ kind \in Kinds /\ dims \in Dims /\ v \in Subsets(Len(dims))
        /\ \E s \in Seeds :
             \/ kind = "block" /\ data = PT(Q(s)) /\ exp = [neg |-> EigAbs(s) - 1]
             \/ kind = "pure" /\ (Prod(Select(dims, v)) = 2 \/ Prod(Select(dims, Cmpl)) = 2) /\ data = Psi(s)
                /\ exp = [negsq |-> Det2(PTrace(Dyad(Psi(s), Psi(s)), dims, IF Prod(Select(dims, v)) = 2 THEN v ELSE Cmpl)),
                          purity |-> Frob2(PTrace(Dyad(Psi(s), Psi(s)), dims, v))]
             \/ /\ kind = "mix" /\ N >= 4 /\ Cmpl # <<>> /\ LET w == Weights(s) IN
                     /\ ISum(LAMBDA i : w[i], 1, N) = 8
                     /\ \A i \in 1..Len(Marg(w, v)) : Dyadic(Marg(w, v)[i]) /\ \A j \in 1..Len(Marg(w, Cmpl)) : Dyadic(Marg(w, Cmpl)[j])
                     /\ data = w /\ exp = [entropy |-> Ent(w), mutual |-> Ent(Marg(w, v)) + Ent(Marg(w, Cmpl)) - Ent(w),
                                           purity |-> ISum(LAMBDA i : Marg(w, v)[i] * Marg(w, v)[i], 1, Len(Marg(w, v)))]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* ---- design: partial transposition is an involution and keeps Hermiticity, classical states have no negative mutual information
Involution == kind = "block" => PT(PT(data)) = data /\ Hermitian(data)
NonNegative == /\ (kind = "mix" => exp.mutual >= 0)
               /\ (kind = "pure" => exp.negsq >= 0)
Emit == CSVWrite("%1$s", <<ToJson([in |-> [kind |-> kind, dims |-> dims, v |-> v, data |-> data], exp |-> exp])>>, IOEnv.OUT)
=============================================================================
