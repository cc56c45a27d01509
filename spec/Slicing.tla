------------------------------ MODULE Slicing ------------------------------
(* Slicing an array over a choice of retained axes.  The remaining (dummy) axes form an odometer, the last axis running
   fastest; at every position of the odometer there is one view, mapping the indices of the retained axes, in the requested
   order, to elements of the array (numbered row by row).  Iteration is a state machine: one transition per slice. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Cases       \* set of records [dims, v]: extents, and the retained axes (0-based) in the requested order
VARIABLES cs, odo, done, views
vars == <<cs, odo, done, views>>
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Flat(_, _)    \* row-major number of a multi-index
Flat(idx, dims) == IF dims = <<>> THEN 0 ELSE idx[1] * Prod(Tail(dims)) + Flat(Tail(idx), Tail(dims))
RECURSIVE Unflat(_, _)
Unflat(n, dims) == IF dims = <<>> THEN <<>> ELSE LET r == Prod(Tail(dims)) IN <<n \div r>> \o Unflat(n % r, Tail(dims))
Axes(c) == 0..(Len(c.dims) - 1)
Dummies(c) == LET D == Axes(c) \ Range(c.v)
                  f[k \in 0..Len(c.dims)] == IF k = 0 THEN <<>> ELSE IF (k - 1) \in D THEN Append(f[k-1], k - 1) ELSE f[k-1] IN f[Len(c.dims)]
DDims(c) == [i \in 1..Len(Dummies(c)) |-> c.dims[Dummies(c)[i] + 1]]
VDims(c) == [i \in 1..Len(c.v) |-> c.dims[c.v[i] + 1]]
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
\* the element addressed by retained index r (in the order of v) and odometer reading o
Elem(c, r, o) == Flat([a \in 1..Len(c.dims) |-> IF (a - 1) \in Range(c.v) THEN r[Pos(c.v, a - 1)] ELSE o[Pos(Dummies(c), a - 1)]], c.dims)
View(c, o) == [n \in 1..Prod(VDims(c)) |-> Elem(c, Unflat(n - 1, VDims(c)), o)]

Init == /\ cs \in Cases /\ odo = [i \in 1..Len(Dummies(cs)) |-> 0] /\ done = FALSE /\ views = <<>>
\* increment with carry
RECURSIVE Carry(_, _, _)
Carry(o, d, k) == IF k = 0 THEN <<>>   \* overflow: the end
                  ELSE IF o[k] + 1 < d[k] THEN [o EXCEPT ![k] = @ + 1] ELSE Carry([o EXCEPT ![k] = 0], d, k - 1)
Visit == /\ ~done /\ views' = Append(views, View(cs, odo))
         /\ LET n == Carry(odo, DDims(cs), Len(odo)) IN IF n = <<>> THEN done' = TRUE /\ UNCHANGED odo ELSE odo' = n /\ UNCHANGED done
         /\ UNCHANGED cs
Spec == Init /\ [][Visit]_vars
\* ---- properties
All == UNION {Range(views[k]) : k \in DOMAIN views}
ExactlyOnce == done => /\ All = 0..(Prod(cs.dims) - 1) /\ Len(views) * Prod(VDims(cs)) = Prod(cs.dims)
Disjoint == \A k \in DOMAIN views : \A l \in DOMAIN views : k # l => Range(views[k]) \cap Range(views[l]) = {}
Emit == done => CSVWrite("%1$s", <<ToJson([in |-> [dims |-> cs.dims, v |-> cs.v], exp |-> [views |-> views, ext |-> VDims(cs), aligned |-> TRUE, written |-> TRUE]])>>, IOEnv.OUT)
=============================================================================
