----------------------------- MODULE StructOps -----------------------------
(* Structured operators.  A stack machine over operators: every abstract operator is a dense matrix of Gaussian integers
   over a product of finite index spaces, together with the generator of its rotation (per axis, an exponent vector) and the
   time it has been propagated to.  Pushing, adding, subtracting, scaling, conjugating, tensoring and propagating are defined
   on the dense matrices; what the structured representation cannot hold is refused.
   An exponent <<a,b>> stands for a*ln2 + b*i*pi/2, so that at integer times rotations are powers of 2 times powers of i. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Unaries,    \* unary tridiagonals to push: records [lz, k, lm, lp, s] (lengths of the three diagonals, distance, variant)
          Scalars,    \* Gaussian integers to multiply with
          Gens,       \* generators to furnish with: sequences of exponents (at least as long as any axis)
          Times,      \* times to propagate to
          UnOps,      \* unary operations used, subset of {"neg","dag","mhc","phc","phci","mul","furnish","prop","copy","swap","pushf"}
          BinOps,     \* subset of {"add","sub","kron"}
          Sigs,       \* elementary transitions <<L,R>> (over an axis of dimension 3)
          MaxSig,     \* how many of them may be tensored onto an operator
          MaxOps, MaxStack, MaxRank, MaxDim, Shift
VARIABLES st, status, hin
vars == <<st, status, hin>>

\* ---- Gaussian integers
GAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
GMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
GConj(x) == <<x[1], -x[2]>>
GNeg(x) == <<-x[1], -x[2]>>
Zero == <<0, 0>>
IPow(n) == CASE n % 4 = 0 -> <<1, 0>> [] n % 4 = 1 -> <<0, 1>> [] n % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Range(s) == {s[i] : i \in DOMAIN s}

\* ---- dense matrices, indices 0..n-1
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE s[1] * ProdSeq(Tail(s))
Dim(o) == ProdSeq(o.dims)
Rank(o) == Len(o.dims)
RECURSIVE Digits(_, _)    \* multi-index of a flat one
Digits(i, dims) == IF dims = <<>> THEN <<>> ELSE LET r == ProdSeq(Tail(dims)) IN <<i \div r>> \o Digits(i % r, Tail(dims))
NoGen(d) == [n \in 0..d-1 |-> <<0, 0>>]

\* the class of a matrix element: per axis 0 (diagonal), 1 (below by K), 2 (above by K)
Cls(d) == CASE d = 0 -> 0 [] d > 0 -> 1 [] OTHER -> 2
ClassOf(i, j, dims) == [a \in 1..Len(dims) |-> Cls(Digits(i, dims)[a] - Digits(j, dims)[a])]

\* ---- unary operators
DimOf(u) == MaxOf({u.lz, IF u.lm > 0 THEN u.lm + u.k ELSE 0, IF u.lp > 0 THEN u.lp + u.k ELSE 0})
Consistent(u) == /\ u.lz = 0 \/ u.lm = 0 \/ u.lz = u.lm + u.k
                 /\ u.lz = 0 \/ u.lp = 0 \/ u.lz = u.lp + u.k
                 /\ u.lm = 0 \/ u.lp = 0 \/ u.lm = u.lp
                 /\ u.k > 0 \/ (u.lm = 0 /\ u.lp = 0)
Entry(u, i, j) == IF i = j THEN (IF u.lz > 0 THEN <<i + u.s, 1>> ELSE Zero)
                  ELSE IF i = j + u.k THEN (IF u.lm > 0 THEN <<u.s, j + 2>> ELSE Zero)
                  ELSE IF j = i + u.k THEN (IF u.lp > 0 THEN <<i + 1, -u.s>> ELSE Zero)
                  ELSE Zero
Tri(u) == [dims |-> <<DimOf(u)>>, K |-> <<IF u.lm + u.lp > 0 THEN u.k ELSE 0>>,
           pres |-> (IF u.lz > 0 THEN {<<0>>} ELSE {}) \cup (IF u.lm > 0 THEN {<<1>>} ELSE {}) \cup (IF u.lp > 0 THEN {<<2>>} ELSE {}),
           M |-> [i \in 0..DimOf(u)-1 |-> [j \in 0..DimOf(u)-1 |-> Entry(u, i, j)]],
           W |-> <<NoGen(DimOf(u))>>, hasW |-> <<FALSE>>, t |-> 0]

\* ---- algebra
Map1(o, F(_)) == [o EXCEPT !.M = [i \in DOMAIN o.M |-> [j \in DOMAIN o.M |-> F(o.M[i][j])]]]
Dagger(o) == [o EXCEPT !.M = [i \in DOMAIN o.M |-> [j \in DOMAIN o.M |-> GConj(o.M[j][i])]],
                       !.pres = {[a \in DOMAIN c |-> (3 - c[a]) % 3] : c \in o.pres}]
Scale(o, z) == Map1(o, LAMBDA x : GMul(z, x))
Neg(o) == Map1(o, GNeg)
AnyW(o) == \E d \in 1..Rank(o) : o.hasW[d]
Imaginary(o) == \A d \in 1..Rank(o) : \A n \in DOMAIN o.W[d] : o.W[d][n][1] = 0
\* relative exponent of an element
Rel(o, i, j) == LET di == Digits(i, o.dims) dj == Digits(j, o.dims)
                    f[a \in 0..Rank(o)] == IF a = 0 THEN <<0, 0>> ELSE
                        LET p == f[a-1] IN <<p[1] + o.W[a][di[a]][1] - o.W[a][dj[a]][1], p[2] + o.W[a][di[a]][2] - o.W[a][dj[a]][2]>>
                IN f[Rank(o)]
\* structurally present elements
Present(o, i, j) == ClassOf(i, j, o.dims) \in o.pres /\ \A a \in 1..Rank(o) :
                       LET d == Digits(i, o.dims)[a] - Digits(j, o.dims)[a] IN d = 0 \/ d = o.K[a] \/ d = -o.K[a]
AddK(a, b) == [d \in 1..Rank(a) |-> IF a.K[d] = 0 THEN b.K[d] ELSE a.K[d]]
\* verdict on a sum: "ok", "no" (cannot be represented) or "any" (left open)
SumVerdict(a, b) ==
  IF a.dims # b.dims THEN "no"
  ELSE IF \E d \in 1..Rank(a) : a.K[d] # 0 /\ b.K[d] # 0 /\ a.K[d] # b.K[d] THEN "no"
  ELSE IF AnyW(a) /\ AnyW(b) /\ a.t # b.t THEN "no"
  ELSE IF \E d \in 1..Rank(a) : a.hasW[d] /\ b.hasW[d] /\ a.K[d] # 0 /\ b.K[d] # 0 /\
            \E n \in 0..a.dims[d]-1-a.K[d] : a.W[d][n+a.K[d]][1] - a.W[d][n][1] # b.W[d][n+a.K[d]][1] - b.W[d][n][1] \/
                                             a.W[d][n+a.K[d]][2] - a.W[d][n][2] # b.W[d][n+a.K[d]][2] - b.W[d][n][2] THEN "no"
  ELSE IF \A d \in 1..Rank(a) : (a.K[d] # 0 /\ b.K[d] # 0) => (a.hasW[d] = b.hasW[d]) THEN "ok"
  ELSE IF \E i \in DOMAIN a.M : \E j \in DOMAIN a.M : Present(a, i, j) /\ Present(b, i, j) /\ Rel(a, i, j) # Rel(b, i, j) THEN "no"
  ELSE "any"
Sum(a, b) == [dims |-> a.dims, K |-> AddK(a, b), pres |-> a.pres \cup b.pres,
              M |-> [i \in DOMAIN a.M |-> [j \in DOMAIN a.M |-> GAdd(a.M[i][j], b.M[i][j])]],
              W |-> [d \in 1..Rank(a) |-> IF a.hasW[d] THEN a.W[d] ELSE b.W[d]],
              hasW |-> [d \in 1..Rank(a) |-> a.hasW[d] \/ b.hasW[d]],
              t |-> IF AnyW(a) THEN a.t ELSE IF AnyW(b) THEN b.t ELSE a.t]
KronVerdict(a, b) == IF a.t = b.t THEN "ok" ELSE IF AnyW(a) /\ AnyW(b) THEN "no" ELSE "any"
Kron(a, b) == LET d2 == Dim(b) n == Dim(a) * Dim(b) IN
   [dims |-> a.dims \o b.dims, K |-> a.K \o b.K, pres |-> {c \o d : c \in a.pres, d \in b.pres},
    M |-> [i \in 0..n-1 |-> [j \in 0..n-1 |-> GMul(a.M[i \div d2][j \div d2], b.M[i % d2][j % d2])]],
    W |-> a.W \o b.W, hasW |-> a.hasW \o b.hasW, t |-> a.t]
Sig(lr) == [dims |-> <<3>>, K |-> <<0>>, pres |-> {}, M |-> [i \in 0..2 |-> [j \in 0..2 |-> IF i = lr[1] /\ j = lr[2] THEN <<1, 0>> ELSE Zero]],
            W |-> <<NoGen(3)>>, hasW |-> <<FALSE>>, t |-> 0]

\* ---- behaviours
Init == st = <<>> /\ status = "ok" /\ hin = <<>>
Top == st[Len(st)]
Sub == st[Len(st) - 1]
Go == status = "ok" /\ Len(hin) < MaxOps
Log(r) == hin' = Append(hin, r)
Replace(o) == st' = [st EXCEPT ![Len(st)] = o]
CanDag(o) == o.t = 0 \/ Imaginary(o)

Push(u) == /\ Go /\ Len(st) < MaxStack
           /\ Log([op |-> "push", lz |-> u.lz, k |-> u.k, lm |-> u.lm, lp |-> u.lp, s |-> u.s])
           /\ IF Consistent(u) THEN st' = Append(st, Tri(u)) /\ UNCHANGED status ELSE status' = "refused" /\ UNCHANGED st
\* constructed with its main diagonal converted to a rotation (with the opposite sign)
PushF(u, g) == /\ Go /\ "pushf" \in UnOps /\ Len(st) < MaxStack /\ u.lz > 0 /\ u.lm + u.lp > 0 /\ Consistent(u) /\ UNCHANGED status
               /\ Log([op |-> "pushf", k |-> u.k, lm |-> u.lm, lp |-> u.lp, s |-> u.s, g |-> SubSeq(g, 1, u.lz)])
               /\ LET o == Tri([u EXCEPT !.lz = 0]) IN
                  st' = Append(st, [o EXCEPT !.W = <<[n \in 0..u.lz-1 |-> <<-g[n+1][1], -g[n+1][2]>>]>>, !.hasW = <<TRUE>>])
HcSum(o, name) == LET d == Dagger(o) IN
    CASE name = "mhc" -> [v |-> SumVerdict(o, Neg(d)), o |-> Sum(o, Neg(d))]
      [] name = "phc" -> [v |-> SumVerdict(o, d), o |-> Sum(o, d)]
      [] OTHER -> [v |-> SumVerdict(o, d), o |-> Scale(Sum(o, d), <<0, -1>>)]
Simple(name) == /\ Go /\ name \in UnOps /\ st # <<>> /\ UNCHANGED status /\ Log([op |-> name])
                /\ CASE name = "neg" -> Replace(Neg(Top))
                     [] name = "copy" -> Replace(Top)
                     [] name = "dag" -> CanDag(Top) /\ Replace(Dagger(Top))
                     [] OTHER -> CanDag(Top) /\ HcSum(Top, name).v = "ok" /\ Replace(HcSum(Top, name).o)
Multiply(z) == /\ Go /\ "mul" \in UnOps /\ st # <<>> /\ UNCHANGED status /\ Log([op |-> "mul", z |-> z]) /\ Replace(Scale(Top, z))
Furnish(g) == /\ Go /\ "furnish" \in UnOps /\ st # <<>> /\ Rank(Top) = 1 /\ Top.t = 0 /\ ~AnyW(Top) /\ UNCHANGED status
              /\ Log([op |-> "furnish", g |-> SubSeq(g, 1, Top.dims[1])])
              /\ Replace(IF Top.K[1] = 0 THEN Top ELSE [Top EXCEPT !.W = <<[n \in 0..Top.dims[1]-1 |-> g[n+1]]>>, !.hasW = <<TRUE>>])
Propagate(t) == /\ Go /\ "prop" \in UnOps /\ st # <<>> /\ UNCHANGED status /\ Log([op |-> "prop", t |-> t]) /\ Replace([Top EXCEPT !.t = t])
\* exchange the two topmost operators
Swap == /\ Go /\ "swap" \in UnOps /\ Len(st) > 1 /\ UNCHANGED status /\ Log([op |-> "swap"])
        /\ st' = [st EXCEPT ![Len(st)] = Sub, ![Len(st) - 1] = Top]
Binary(name) ==
  /\ Go /\ name \in BinOps /\ Len(st) > 1 /\ Log([op |-> name])
  /\ IF name = "kron"
     THEN /\ Rank(Sub) + Rank(Top) <= MaxRank /\ Dim(Sub) * Dim(Top) <= MaxDim
          /\ CASE KronVerdict(Sub, Top) = "ok" -> st' = Append(SubSeq(st, 1, Len(st) - 2), Kron(Sub, Top)) /\ UNCHANGED status
               [] KronVerdict(Sub, Top) = "no" -> status' = "refused" /\ UNCHANGED st
               [] OTHER -> FALSE
     ELSE /\ Rank(Sub) = Rank(Top)
          /\ LET b == IF name = "add" THEN Top ELSE Neg(Top) IN
             CASE SumVerdict(Sub, b) = "ok" -> st' = Append(SubSeq(st, 1, Len(st) - 2), Sum(Sub, b)) /\ UNCHANGED status
               [] SumVerdict(Sub, b) = "no" -> status' = "refused" /\ UNCHANGED st
               [] OTHER -> FALSE
\* tensoring elementary transitions: the last operations of a history
Sigma(lr, side) ==
  /\ status \in {"ok", "sigma"} /\ Len(hin) < MaxOps + MaxSig /\ Len(st) <= 1
  /\ Cardinality({k \in DOMAIN hin : hin[k].op = "sigma"}) < MaxSig
  /\ IF st = <<>> THEN side = "head" /\ st' = <<Sig(lr)>>
     ELSE /\ status = "sigma" \/ Rank(Top) <= 2
          /\ Dim(Top) * 3 <= MaxDim
          /\ Replace(IF side = "head" THEN Kron(Sig(lr), Top) ELSE Kron(Top, Sig(lr)))
  /\ Log([op |-> "sigma", l |-> lr[1], r |-> lr[2], side |-> side]) /\ status' = "sigma"

Next == \/ \E u \in Unaries : Push(u)
        \/ \E u \in Unaries, g \in Gens : PushF(u, g)
        \/ \E n \in {"neg", "copy", "dag", "mhc", "phc", "phci"} : Simple(n)
        \/ \E z \in Scalars : Multiply(z)
        \/ \E g \in Gens : Furnish(g)
        \/ \E t \in Times : Propagate(t)
        \/ Swap
        \/ \E n \in BinOps : Binary(n)
        \/ \E lr \in Sigs, side \in {"head", "tail"} : Sigma(lr, side)
Spec == Init /\ [][Next]_vars

\* ---- what is observed: the topmost operator, applied to every basis state
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 ^ n
RotElem(o, i, j) == LET r == Rel(o, i, j) e == Shift + r[1] * o.t z == GMul(IPow(r[2] * o.t), o.M[i][j]) IN <<z[1] * Pow2(e), z[2] * Pow2(e)>>
InRange(o) == \A i \in DOMAIN o.M : \A j \in DOMAIN o.M : o.M[i][j] # Zero =>
                  LET e == Shift + Rel(o, i, j)[1] * o.t IN e >= 0 /\ e < 16 /\ o.M[i][j][1] \in -8000..8000 /\ o.M[i][j][2] \in -8000..8000
Dense(o) == [n \in 1..Dim(o)*Dim(o) |-> RotElem(o, (n-1) \div Dim(o), (n-1) % Dim(o))]

\* ---- properties
\* the represented operator stays within its structure: outside the present classes everything vanishes
Structured == \A k \in DOMAIN st : status = "ok" => \A i \in DOMAIN st[k].M : \A j \in DOMAIN st[k].M : ~Present(st[k], i, j) => st[k].M[i][j] = Zero
\* conjugating twice is the identity, and rotation commutes with it
Involution == (status = "ok" /\ st # <<>>) => Dagger(Dagger(Top)) = Top
\* the rotation is a conjugation with a diagonal matrix: it leaves the diagonal alone
DiagonalStays == (status = "ok" /\ st # <<>>) => \A i \in DOMAIN Top.M : RotElem(Top, i, i) = <<Top.M[i][i][1] * Pow2(Shift), Top.M[i][i][2] * Pow2(Shift)>>

Interesting == status \in {"refused", "sigma"} \/ (Len(hin) > 0 /\ (Len(st) = 1 \/ Len(hin) = MaxOps))
Emit == (Interesting /\ (status = "refused" \/ (st # <<>> /\ InRange(Top)))) =>
   CSVWrite("%1$s", <<ToJson([in |-> [ops |-> hin, shift |-> Shift],
       exp |-> IF status = "refused" THEN [refused |-> 1, dims |-> <<>>, m |-> <<>>] ELSE [refused |-> 0, dims |-> Top.dims, m |-> Dense(Top)]])>>, IOEnv.OUT)
=============================================================================
