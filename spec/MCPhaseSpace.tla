---- MODULE MCPhaseSpace ----
EXTENDS PhaseSpace
ST2 == {1, 3}
DQ == 1..4
SQ == 0..24
ST == 0..60
PQ == <<<<0,0>>, <<1,0>>, <<0,1>>, <<-1,0>>, <<0,-1>>, <<1,1>>, <<2,-1>>, <<-1,2>>, <<-2,-1>>, <<3,0>>>>
PT == PQ \o <<<<0,3>>, <<-3,1>>, <<2,2>>, <<-2,2>>, <<1,-3>>, <<3,3>>>>
TQ == {0, 1, 2, 3, 4, 9}
TS == {0, 2}
LQ == {[ul |-> 0, l |-> -2, u |-> 1], [ul |-> 2, l |-> -1, u |-> 1], [ul |-> 0, l |-> 1, u |-> 2], [ul |-> 1, l |-> 0, u |-> 3]}
StQ == {1, 2}
NoLimits == {}
====
