---- MODULE MCMCWF ----
EXTENDS MCWF
N23 == {2, 3}
N2only == {2}
AllCaps == {<<FALSE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, FALSE>>, <<TRUE, TRUE>>}
ChAll == {-1, 0, 1, 2, 3}
Dt1 == {<<1, 2>>, <<1, 20>>}
Dt2 == {<<1, 2>>, <<3, 40>>}
F1 == {<<1, 1>>}
F2 == {<<1, 1>>, <<1, 2>>}
G2 == {<<1, 1>>, <<3, 1>>}
G1 == {<<2, 1>>}
DpT1 == {<< <<1, 10>>, <<2, 1>> >>}
DpT2 == {<< <<1, 10>>, <<2, 1>> >>, << <<1, 2>>, <<4, 1>> >>, << <<1, 20>>, <<10, 1>> >>}
DI == {<<1, 4>>}
DI2 == {<<1, 4>>, <<2, 1>>}
E3 == {<<1, 32>>, <<1, 2>>, <<31, 32>>}
E1 == {<<1, 2>>}
Dt3 == {<<1, 2>>, <<1, 20>>, <<1, 5>>}
DpT3 == {<< <<1, 10>>, <<2, 1>> >>, << <<1, 2>>, <<4, 1>> >>, << <<1, 20>>, <<10, 1>> >>, << <<1, 10>>, <<3, 2>> >>}
PickAll(S) == S
PickOne(S) == {RandomElement(S)}
====
