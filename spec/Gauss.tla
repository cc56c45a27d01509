------------------------------- MODULE Gauss -------------------------------
(* Exact arithmetic on Gaussian integers <<re, im>>, vectors and matrices of them, and row-major multi-indices. *)
EXTENDS Integers, Sequences
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], -a[2]>>
Scale(k, a) == <<k * a[1], k * a[2]>>
Zero == <<0, 0>>
One == <<1, 0>>
Abs2(a) == a[1] * a[1] + a[2] * a[2]
IPow(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
RECURSIVE SumFT(_, _, _)     \* sum of F(lo), ..., F(hi)
SumFT(F(_), lo, hi) == IF lo > hi THEN Zero ELSE Add(F(lo), SumFT(F, lo + 1, hi))
RECURSIVE ISum(_, _, _)
ISum(F(_), lo, hi) == IF lo > hi THEN 0 ELSE F(lo) + ISum(F, lo + 1, hi)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RangeOf(s) == {s[i] : i \in DOMAIN s}
PosOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
RECURSIVE Flat(_, _)         \* row-major number of a multi-index
Flat(idx, dims) == IF dims = <<>> THEN 0 ELSE idx[1] * Prod(Tail(dims)) + Flat(Tail(idx), Tail(dims))
RECURSIVE Unflat(_, _)
Unflat(n, dims) == IF dims = <<>> THEN <<>> ELSE LET r == Prod(Tail(dims)) IN <<n \div r>> \o Unflat(n % r, Tail(dims))
RECURSIVE Rest(_, _, _)      \* the axes 0..r-1 not in v, ascending
Rest(v, k, r) == IF k >= r THEN <<>> ELSE IF k \in RangeOf(v) THEN Rest(v, k + 1, r) ELSE <<k>> \o Rest(v, k + 1, r)
Select(dims, v) == [i \in 1..Len(v) |-> dims[v[i] + 1]]
\* row-major number in the whole of the index having r on the axes v and o on the others
Join(dims, v, r, o) == LET w == Rest(v, 0, Len(dims)) IN
  Flat([a \in 1..Len(dims) |-> IF (a - 1) \in RangeOf(v) THEN r[PosOf(v, a - 1)] ELSE o[PosOf(w, a - 1)]], dims)
\* the whole table of it: J[x][y] for retained index x and dummy index y (1-based, row-major)
JoinTable(dims, v) == LET vd == Select(dims, v) wd == Select(dims, Rest(v, 0, Len(dims))) IN
  [x \in 1..Prod(vd) |-> [y \in 1..Prod(wd) |-> 1 + Join(dims, v, Unflat(x - 1, vd), Unflat(y - 1, wd))]]
\* ---- matrices as sequences of rows
Dyad(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b) |-> Mul(a[i], Conj(b[j]))]]
MAdd(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> Add(a[i][j], b[i][j])]]
MMul(c, a) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> Mul(c, a[i][j])]]
Trace(m) == SumFT(LAMBDA i : m[i][i], 1, Len(m))
Frob2(m) == ISum(LAMBDA i : ISum(LAMBDA j : Abs2(m[i][j]), 1, Len(m)), 1, Len(m))
Hermitian(m) == \A i \in 1..Len(m) : \A j \in 1..Len(m) : m[i][j] = Conj(m[j][i])
PTrace(m, dims, v) == LET J == JoinTable(dims, v) nd == Len(J[1]) IN
  [x \in 1..Len(J) |-> [y \in 1..Len(J) |-> SumFT(LAMBDA o : m[J[x][o]][J[y][o]], 1, nd)]]
RECURSIVE Cat(_, _, _)
Cat(F(_), lo, hi) == IF lo > hi THEN <<>> ELSE F(lo) \o Cat(F, lo + 1, hi)
=============================================================================
