---- MODULE MCJumpEnsemble ----
EXTENDS JumpEnsemble
Sys(s, li, sp) == [n |-> 2, s |-> s, li |-> li, special |-> sp, ex |-> FALSE, ha |-> FALSE]
SQ == {Sys(1, 2, 0), Sys(2, 3, 2), Sys(0, 1, 0)}
FQ == {1, 5}
D3 == {<<1, 1000>>, <<3, 29>>, <<99, 100>>}
D2 == {<<1, 1000>>, <<9, 100>>}
PickAll(S) == S
PickOne(S) == {RandomElement(S)}
====
