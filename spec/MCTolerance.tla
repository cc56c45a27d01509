---- MODULE MCTolerance ----
EXTENDS Tolerance
Q_As == {-999, -40, -30, -20, -10}
Q_Rs == {-999, -40, -30, -20, -10}
Q_Ys == {-999, -12, 0, 9}
Q_Es == {-45, -36, -27, -15, -6}
Q_Scales == {-7, 4, 11}
T_As == {-999, -34, -17}
T_Rs == {-999, -29, -12}
T_Ys == {-999, -8, 7}
T_Es == {-40, -24, -9}
====
