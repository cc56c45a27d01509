------------------------------ MODULE Counting ------------------------------
(* Multi-index counters between inclusive bounds, and the table of ways to put k particles on n sites.
   Both enumerate: kind "mii" from lower to upper bounds, the last index fastest; kind "cwr" the configurations in
   lexicographic order.  One transition per item. *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Cases
VARIABLES cs, cur, seen, done
vars == <<cs, cur, seen, done>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
First(c) == IF c.kind = "mii" THEN c.lo ELSE [i \in 1..c.n |-> IF i = c.n THEN c.k ELSE 0]
RECURSIVE Carry(_, _, _)
Carry(c, x, p) == IF p = 0 THEN <<>> ELSE IF x[p] < c.hi[p] THEN [x EXCEPT ![p] = @ + 1] ELSE Carry(c, [x EXCEPT ![p] = c.lo[p]], p - 1)
\* next configuration: the rightmost site p<n that can take one more particle from the sites behind it
Movable(x, p, n) == Sum(SubSeq(x, p + 1, n)) > 0
Next1(c, x) == IF c.kind = "mii" THEN Carry(c, x, Len(x))
               ELSE LET P == {p \in 1..(c.n - 1) : Movable(x, p, c.n)} IN
                    IF P = {} THEN <<>> ELSE LET p == CHOOSE p \in P : \A q \in P : q <= p rest == Sum(SubSeq(x, p + 1, c.n)) - 1 IN
                       [i \in 1..c.n |-> IF i < p THEN x[i] ELSE IF i = p THEN x[i] + 1 ELSE IF i = c.n THEN rest ELSE 0]
Init == cs \in Cases /\ cur = First(cs) /\ seen = <<>> /\ done = FALSE
Step == /\ ~done /\ seen' = Append(seen, cur) /\ UNCHANGED cs
        /\ LET n == Next1(cs, cur) IN IF n = <<>> THEN done' = TRUE /\ UNCHANGED cur ELSE cur' = n /\ UNCHANGED done
Spec == Init /\ [][Step]_vars
\* ---- properties: nothing twice, everything there, in order
Less(x, y) == \E p \in DOMAIN x : x[p] < y[p] /\ \A q \in 1..(p - 1) : x[q] = y[q]
Ordered == \A i \in 1..(Len(seen) - 1) : Less(seen[i], seen[i + 1])
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
Complete == done => Len(seen) = IF cs.kind = "mii" THEN Prod([i \in DOMAIN cs.lo |-> cs.hi[i] - cs.lo[i] + 1]) ELSE Binom(cs.n + cs.k - 1, cs.k)
Conserved == \A i \in DOMAIN seen : cs.kind = "cwr" => Sum(seen[i]) = cs.k
Emit == done => CSVWrite("%1$s", <<ToJson([in |-> cs, exp |-> [items |-> seen, inverse |-> TRUE]])>>, IOEnv.OUT)
=============================================================================
