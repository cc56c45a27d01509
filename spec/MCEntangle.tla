---- MODULE MCEntangle ----
EXTENDS Entangle
QDims == {<<2,2>>, <<2,3>>, <<3,2>>, <<3,3>>, <<4,2>>, <<2,2,2>>, <<2,3,2>>, <<3,1,2>>, <<1,2,3>>}
\* proper nonempty subsets, ascending (rank 2: single axes)
Subs(r) == IF r = 2 THEN {<<0>>, <<1>>} ELSE {<<0>>, <<1>>, <<2>>, <<0,1>>, <<0,2>>, <<1,2>>}
Sq == 0..7
St == 0..40
AllKinds == {"block", "pure", "mix"}
====
