------------------------------ MODULE TrajSys ------------------------------
(* The quantum systems driven by the trajectory models: operators with one entry <<column, weight>> per row.
   Their weights depend on the instants they are evaluated at through Fd, so that a wrong instant becomes visible in the state. *)
EXTENDS Gauss, Rat
K == 6
Fd(t) == (5 * K * t[1] + t[2]) \div (5 * t[2])
Tie(t) == (5 * K * t[1] + t[2]) % (5 * t[2]) = 0        \* floating point cannot decide these: not explored
OpH(s, n, t, t0) == [x \in 1..n |-> <<1 + (x % n), Scale(IF x = 1 THEN 2 ELSE 1, IPow(x * (Fd(t) + 2 * Fd(t0)) + s + x * x))>>]
OpU(s, n, t, t0) == [x \in 1..n |-> <<x, Scale(IF x = 2 /\ Fd(t) # Fd(t0) THEN 2 ELSE 1, IPow(x * (Fd(t) - Fd(t0)) + 40 * x))>>]
OpJ(s, n, c, t) == [x \in 1..n |-> <<1 + ((x + c - 1) % n), Scale(((s + c * x + x) % 3) + (IF x = c /\ Fd(t) % 2 = 1 THEN 1 ELSE 0), IPow(s + c * x))>>]
OnVec(o, v) == [x \in 1..Len(v) |-> Mul(o[x][2], v[o[x][1]])]
FromLeft(o, m) == [x \in 1..Len(m) |-> [y \in 1..Len(m) |-> Mul(o[x][2], m[o[x][1]][y])]]
BothSides(o, m) == [x \in 1..Len(m) |-> [y \in 1..Len(m) |-> Mul(Mul(o[x][2], Conj(o[y][2])), m[o[x][1]][o[y][1]])]]
HConj(m) == [x \in 1..Len(m) |-> [y \in 1..Len(m) |-> Conj(m[y][x])]]
=============================================================================
