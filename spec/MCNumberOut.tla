---- MODULE MCNumberOut ----
EXTENDS NumberOut
Q_Precs == 1..17
Q_Exps == {-307, -300, -101, -100, -99, -10, -6, -5, -4, -3, -1} \cup 0..8 \cup {12, 15, 16, 17, 18, 99, 100, 307}
S_Exps == -307..307
Q_Digits == {1, 2, 3, 6, 7, 12, 17}
Q_Forms == {"any", "pos"}
====
