---- MODULE MCMaster ----
EXTENDS Master
DimsQ == {<<2>>, <<3>>, <<2, 2>>}
DimsS == {<<2>>, <<3>>, <<2, 2>>, <<3, 2>>, <<2, 3>>}
AllCaps == {<<FALSE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, FALSE>>, <<TRUE, TRUE>>}
ChAll == {-1, 0, 1, 2, 3}
Dt2 == {<<1, 2>>, <<1, 20>>}
Dt3 == {<<1, 2>>, <<1, 20>>, <<1, 5>>}
F2 == {<<1, 1>>, <<1, 2>>}
F1 == {<<1, 1>>}
G1 == {<<2, 1>>}
G2 == {<<1, 1>>, <<3, 1>>}
DI == {<<1, 4>>}
DI2 == {<<1, 4>>, <<2, 1>>}
PickAll(S) == S
PickOne(S) == {RandomElement(S)}
====
