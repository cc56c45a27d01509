---- MODULE MCOscillator ----
EXTENDS Oscillator
Osc(q, gs, oms) == {[q |-> q, g2 |-> g, om |-> o] : g \in gs, o \in oms}
AllOscillators == Osc(1, 0..4, {-3, -1, 0, 1, 2}) \cup Osc(8, {1, 15, 17}, {-20, 7, 9}) \cup Osc(100, {1, 199, 201}, {-101, 99, 100})
AllStarts == {0, 3, -5, 128, 6400}
FewStarts == {0, -5, 128}
AllJumps == {-6, 0, 1, 13, 160, 900}
FewJumps == {-4, 0, 7, 136}
AllData == {<<Zero, Zero>>, <<<<1, -1>>, <<0, 2>>>>, <<<<-2, 1>>, <<3, -1>>>>}
FewData == {<<Zero, Zero>>, <<<<1, -1>>, <<0, 2>>>>}
====
