---- MODULE MCStates ----
EXTENDS States
AllTabs == {"mode", "qbit", "particle", "pumped", "picture", "method", "modefunction"}
ParTabs == {"particle", "pumped"}
SmallTabs == {"mode", "qbit", "picture", "method", "modefunction"}
CutQ == {1, 2, 3, 7, 10}
FockQ == {0, 1, 2, 6, 10}
AlphaQ == {<<0, 0>>, <<1, 0>>, <<0, -1>>, <<-2, 1>>, <<1, 2>>}
QbitQ == {<<0, 0>>, <<25, 0>>, <<0, 15>>, <<-7, 0>>, <<12, -16>>, <<15, 16>>, <<-12, 9>>}
FinQ == {2, 3}
HOQ == {-1, 0, 1, 2, 3}
PumpQ == {[sgn |-> s, om |-> o, match |-> w] : s \in {1, -1}, o \in {1, 2}, w \in {"x2", "x3", "h2", "h3"}}
PacketQ(t) == {[x0 |-> x, k0 |-> k, sig |-> w, ink |-> b] : x \in {-4, -2, 0, 1}, k \in {-2, 0, 1}, w \in {"x2", "x3", "k", "h2", "h3"} \cup (IF t = "pumped" THEN {"zero"} ELSE {}), b \in BOOLEAN}
TokQ == {"foo", "ip", "Single", "Si", "IPX", "Sine"}
\* for deep histories
CutS == 1..12
FockS == 0..12
AlphaS == {<<a, b>> : a \in -2..2, b \in -2..2}
QbitS == {c \in {<<a, b>> : a \in -25..25, b \in -25..25} : Abs2(c) <= 625 /\ \E r \in 0..25 : r * r = 625 - Abs2(c)}
HOS == -2..4
PacketS(t) == {[x0 |-> x, k0 |-> k, sig |-> w, ink |-> b] : x \in -4..3, k \in -4..3, w \in {"x2", "x3", "k", "h2", "h3"} \cup (IF t = "pumped" THEN {"zero"} ELSE {}), b \in BOOLEAN}
====
