---- MODULE MCCounting ----
EXTENDS Counting
B(r, m) == {[kind |-> "mii", lo |-> l, hi |-> h] : l \in [1..r -> -1..1], h \in [1..r -> -1..m]}
Mii == {c \in B(1, 3) \cup B(2, 3) \cup B(3, 2) : \A i \in DOMAIN c.lo : c.lo[i] <= c.hi[i]}
Cwr == {[kind |-> "cwr", n |-> n, k |-> k] : n \in 1..5, k \in 0..5}
Q == Mii \cup Cwr
T == Q \cup {c \in B(4, 2) : \A i \in DOMAIN c.lo : c.lo[i] <= c.hi[i]}
====
