---- MODULE MCQData ----
EXTENDS QData
Ordered(r) == UNION {{s \in [1..k -> 0..r-1] : \A i \in 1..k, j \in 1..k : i # j => s[i] # s[j]} : k \in 1..r}
D1 == {<<1>>, <<2>>, <<3>>, <<4>>}
D2 == {<<2,3>>, <<3,2>>, <<2,2>>, <<1,3>>, <<4,2>>, <<3,1>>}
D3 == {<<2,3,2>>, <<2,2,3>>, <<3,1,2>>, <<1,2,2>>}
QStarts == [dims : D1 \cup D2 \cup D3, seed : {2}]
TStarts == [dims : D1 \cup D2 \cup D3 \cup {<<3,2,2>>, <<2,1,3>>, <<2,4,2>>}, seed : {2, 7}]
AllOps == {"do", "assign", "add", "mul", "neg", "copy", "prod", "red", "pack", "fft"}
====
