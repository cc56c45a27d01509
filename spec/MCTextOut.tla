---- MODULE MCTextOut ----
EXTENDS TextOut
Q_Chunks == {<<"a">>, <<"N">>, <<"a","N">>, <<"N","b">>, <<"#","N","N">>}
Q_Data == {<<"7"," ","8","N">>, <<"5">>}
Long == [i \in 1..300 |-> IF i % 41 = 0 THEN "N" ELSE IF i % 7 = 0 THEN " " ELSE "x"]
Longer == [i \in 1..420 |-> IF i % 97 = 0 THEN "N" ELSE "y"]
S_Chunks == Q_Chunks \cup {<<" ">>, <<"N","N","a","#"," ","N">>, Long}
T_Chunks == {Longer, <<"a">>, <<"N">>}
S_Data == Q_Data \cup {<<"N">>}
Two == {0, 1}
One == {0}
====
