---- MODULE MCEnsemble ----
EXTENDS Ensemble
GQ == {<<1>>, <<2>>, <<3>>, <<4>>, <<1, 1>>, <<2, 1>>, <<1, 3>>, <<2, 2>>}
GT == GQ \cup {<<3, 1>>, <<2, 3>>, <<3, 2>>, <<1, 2, 1>>, <<2, 2, 2>>}
====
