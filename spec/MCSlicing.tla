---- MODULE MCSlicing ----
EXTENDS Slicing
Ordered(r) == UNION {{s \in [1..k -> 0..r-1] : \A i \in 1..k, j \in 1..k : i # j => s[i] # s[j]} : k \in 1..r}
C(ds, vs) == {[dims |-> d, v |-> v] : d \in ds, v \in vs}
R1 == C([1..1 -> 1..4], Ordered(1))
R2 == C([1..2 -> 1..3], Ordered(2))
R3 == C([1..3 -> 1..3], Ordered(3))
R4 == C({d \in [1..4 -> 1..3] : d \in {<<2,3,1,2>>, <<3,2,2,3>>, <<1,2,3,2>>, <<2,2,2,2>>, <<3,1,2,2>>}}, Ordered(4))
R4all == C([1..4 -> 1..3], Ordered(4))
V5 == {<<0>>, <<4>>, <<2>>, <<1,3>>, <<3,1>>, <<4,0>>, <<0,2,4>>, <<4,2,0>>, <<2,4,1>>, <<3,0,4,1>>, <<1,2,3,4>>, <<4,3,2,1,0>>, <<2,0,4,1,3>>}
R5 == C({<<2,1,3,2,2>>, <<2,3,2,1,3>>}, V5)
V6 == {<<5>>, <<0,3>>, <<5,2>>, <<1,4,0>>, <<3,4,5>>, <<0,1,2>>, <<5,3,1,0>>, <<2,5,0,4,1>>}
R6 == C({<<2,1,2,2,1,3>>, <<1,2,2,2,2,2>>}, V6)
Quick == R1 \cup R2 \cup R3 \cup R4 \cup R5 \cup R6
Thorough == Quick \cup R4all
====
