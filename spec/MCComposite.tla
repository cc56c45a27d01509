---- MODULE MCComposite ----
EXTENDS Composite
Bit(x, p) == (x \div Pow2(p - 1)) % 2 = 1
NoDev(acts) == [a \in 1..Len(acts) |-> [k \in 1..Len(acts[a]) |-> acts[a][k] + 1]]
\* a system from four subsets of parts; the numbers of channels vary with them
Sys(layout, ds, acts, legs, xe, xh, xl, xa, var) ==
  LET np == Len(ds) + Len(acts) IN
  [layout |-> layout, dims |-> ds, acts |-> acts, legs |-> legs,
   ex |-> [p \in 1..np |-> Bit(xe, p)], ha |-> [p \in 1..np |-> Bit(xh, p)],
   li |-> [p \in 1..np |-> IF Bit(xl, p) THEN (<<1, 2, 3, 0>>)[1 + ((p + var) % 4)] ELSE -1],
   av |-> [p \in 1..np |-> IF Bit(xa, p) THEN (<<2, 1, 0, 3>>)[1 + ((p + 2 * var) % 4)] ELSE -1],
   mas |-> [p \in 1..np |-> Bit(xe + xh + 5 * var, p)]]
Binary(D, vars_) == {Sys("bin", d, <<<<0, 1>>>>, NoDev(<<<<0, 1>>>>), xe, xh, xl, (xe + 3 * xh + 5 * xl + v) % 8, v + xe + xh)
                  : d \in D, xe \in 0..7, xh \in 0..7, xl \in 0..7, v \in vars_}
\* interesting subsets of n parts: none, all, exactly one, all but one
Subsets(n) == {0, Pow2(n) - 1} \cup {Pow2(i) : i \in 0..n-1} \cup {Pow2(n) - 1 - Pow2(i) : i \in 0..n-1}
LayoutSet == {[n |-> "b10", d |-> <<2, 3>>, a |-> <<<<1, 0>>>>],
            [n |-> "c3", d |-> <<2, 3, 2>>, a |-> <<<<0, 1>>, <<1, 2>>>>],
            [n |-> "p3", d |-> <<3, 2, 2>>, a |-> <<<<2, 0>>, <<1, 2>>>>],
            [n |-> "t3", d |-> <<2, 2, 3>>, a |-> <<<<2, 0, 1>>, <<1, 0>>>>],
            [n |-> "s4", d |-> <<2, 1, 2, 3>>, a |-> <<<<0, 1>>, <<3, 2>>, <<1, 3>>>>],
            [n |-> "h4", d |-> <<2, 1, 2, 2>>, a |-> <<<<3, 0>>, <<3, 1>>, <<3, 2>>>>]}
Bins == {[n |-> "bin", d |-> d, a |-> <<<<0, 1>>>>] : d \in {<<2, 3>>, <<3, 2>>, <<1, 2>>}}
AllLayouts == LayoutSet \cup Bins
Mixed(x, n) == (3 * x + 5) % Pow2(n)
CompositeOf(L, vars_) == UNION {LET np == Len(l.d) + Len(l.a) IN
     {Sys(l.n, l.d, l.a, NoDev(l.a), Mixed(x + v, np), Mixed(x + 2 * v + 1, np), x, Mixed(x + 3, np), x + v) : x \in Subsets(np), v \in vars_}
     \cup {Sys(l.n, l.d, l.a, NoDev(l.a), x, x, Mixed(x, np), x, x + v) : x \in Subsets(np), v \in vars_} : l \in L}
\* an act that means another free system on one of its legs
Deviating(L) == UNION {LET np == Len(l.d) + Len(l.a) IN
     {[Sys(l.n, l.d, l.a, NoDev(l.a), 5, 11, Pow2(np) - 1, Pow2(np) - 1, 1) EXCEPT !.legs[q[1]][q[2]] = 21 + l.a[q[1]][q[2]]]
        : q \in {r \in (1..Len(l.a)) \X (1..3) : r[2] <= Len(l.a[r[1]])}} : l \in L}
QBinary == Binary({<<2, 3>>}, {0})
TBinary == Binary({<<2, 3>>, <<3, 2>>, <<1, 2>>}, {0, 1, 2})
QComposite == CompositeOf(LayoutSet, {0}) \cup Deviating(LayoutSet)
TComposite == CompositeOf(LayoutSet, {0, 1, 2, 3, 5}) \cup Deviating(LayoutSet)
SimSys == CompositeOf(LayoutSet, 0..3) \cup {Sys("bin", <<2, 3>>, <<<<0, 1>>>>, NoDev(<<<<0, 1>>>>), xe, (xe * 3 + xl) % 8, xl, 7, xe) : xe \in 0..7, xl \in 0..7}
====
