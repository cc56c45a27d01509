---- MODULE MCToleranceScaling ----
EXTENDS ToleranceScaling
Q_As == {-999, -40, -20}
Q_Rs == {-999, -20, -10}
Q_Ks == {-9, 5, 14}
====
