---- MODULE MCRunLoop ----
EXTENDS RunLoop
Base == [mode |-> "Dt", T |-> 4, n |-> 0, D |-> 1, sdf |-> 0, first |-> TRUE, kind |-> 1, ad |-> TRUE, file |-> FALSE, init |-> <<>>,
         info |-> TRUE, rec |-> TRUE, tab |-> FALSE, ar |-> 0, eps |-> <<1,10>>, epsAbs |-> 1, quiet |-> FALSE, fine |-> 0, cmd |-> FALSE]
At(t,x) == <<[k |-> 1, t |-> t, did |-> 1, x |-> x]>>
\* --- schedule (C01)
S_Modes(ads, Ts, dcs, Ds, Ns, inits) ==
  {[Base EXCEPT !.mode = "dc", !.T = T, !.n = n, !.init = i] : T \in Ts, n \in dcs, i \in inits} \cup
  {[Base EXCEPT !.mode = "Dt", !.T = T, !.D = D, !.ad = a, !.init = i] : T \in Ts, D \in Ds, a \in ads, i \in inits} \cup
  {[Base EXCEPT !.mode = "NDt", !.n = n, !.D = D, !.ad = a, !.init = i] : n \in Ns, D \in Ds, a \in ads, i \in inits}
\* no sampling interval given
NoInterval == {[Base EXCEPT !.mode = m, !.n = n, !.D = 0, !.ad = a, !.file = f, !.init = i, !.cmd = cl] :
               m \in {"Dt", "NDt"}, n \in {1}, a \in BOOLEAN, f \in BOOLEAN, i \in {<<>>, At(2,5)}, cl \in BOOLEAN}
C01Q_Configs == LET M == S_Modes(BOOLEAN, {0,1,2,4,5}, {1,2,3}, {1,2,3}, {1,2}, {<<>>, At(2,5)}) IN
  M \cup {[c EXCEPT !.cmd = TRUE] : c \in {d \in M : d.T = 5}} \cup NoInterval \cup {[c EXCEPT !.file = TRUE, !.info = FALSE] : c \in {d \in M : d.T = 4}} \cup {[c EXCEPT !.quiet = TRUE] : c \in {d \in M : d.T = 2}}
C01Q_Steps == {1,2,99}
C01T_Configs == LET M == S_Modes(BOOLEAN, 0..6, {1,2,3,4}, {1,2,3,8}, {1,2}, {<<>>, At(2,5)}) IN
  M \cup {[c EXCEPT !.file = TRUE, !.cmd = (c.T % 2 = 1)] : c \in M} \cup {[c EXCEPT !.info = FALSE, !.quiet = TRUE, !.cmd = (c.T % 2 = 0)] : c \in M} \cup NoInterval
C01S_Configs == LET M == S_Modes(BOOLEAN, {13,17,24,31}, {1,2,3,5,7}, {2,3,5,7,11}, {3,6,9}, {<<>>, At(3,5), At(11,2)}) IN
  M \cup {[c EXCEPT !.file = TRUE, !.sdf = 2, !.cmd = (c.T % 2 = 1)] : c \in M}
C01S_Steps == {1,2,3,4,6,99}
\* lengths incommensurate with the sampling interval by very little: a tick is 2^-24 here
Fine == 4194304
Fines == {0, 1, Fine-1, Fine, Fine+1, 3*Fine-1, 3*Fine, 3*Fine+1, 3*Fine+Fine \div 2}
C01F_Configs == LET M == { [d EXCEPT !.T = T] : d \in
    {[Base EXCEPT !.mode = "dc", !.n = n, !.fine = 1, !.init = i] : n \in {1,2}, i \in {<<>>, At(Fine-1,3)}} \cup
    {[Base EXCEPT !.mode = "Dt", !.D = D, !.ad = a, !.fine = 1, !.init = i] : D \in {Fine-1, Fine, Fine+1, 2*Fine+1, 4*Fine}, a \in BOOLEAN, i \in {<<>>, At(Fine-1,3)}},
    T \in Fines }
  IN M \cup {[c EXCEPT !.file = TRUE, !.sdf = 2] : c \in {d \in M : d.init = <<>>}} \cup {[Base EXCEPT !.mode = "NDt", !.n = n, !.D = D, !.ad = FALSE, !.fine = 1] : n \in {1,3}, D \in {1, Fine+1}}
C01F_Steps == {Fine-1, Fine \div 2, 8*Fine}
NoVals == {<<0>>}
NoOps == {}
\* --- files (C02)
F(c) == [c EXCEPT !.file = TRUE, !.rec = FALSE]
C02Q_Configs == UNION { { F([Base EXCEPT !.mode = m[1], !.T = m[2], !.n = m[3], !.D = m[4], !.ad = m[5], !.sdf = s, !.first = f]) :
                     m \in {<<"dc",3,1,1,TRUE>>, <<"dc",5,2,1,TRUE>>, <<"Dt",2,0,1,FALSE>>, <<"Dt",5,0,2,FALSE>>, <<"NDt",0,2,1,FALSE>>, <<"Dt",0,0,1,FALSE>>} } :
                     s \in {0,1,2,3}, f \in BOOLEAN }
C02K_Configs == { F([Base EXCEPT !.T = m[2], !.ad = FALSE, !.sdf = 1, !.kind = k, !.init = i]) :
                  m \in {<<"Dt",2>>, <<"Dt",3>>}, k \in 1..4,
                  i \in { <<>>, <<[k |-> 0, x |-> 7]>>, At(1,4), At(0,1) \o At(1,4), <<[k |-> 2, t |-> 1, did |-> 1, x |-> 3]>>, <<[k |-> 3, t |-> 1, did |-> 1, x |-> 3]>>} }
C02_Steps == {1,99}
C04_Steps == {1,2}
C02K_Ops == {"rmstate", "rmtraj"}
C02S_Configs == { F([Base EXCEPT !.mode = m[1], !.T = m[2], !.n = m[3], !.D = m[4], !.ad = m[5], !.sdf = s, !.first = f, !.info = i, !.kind = k, !.cmd = i]) :
                     m \in {<<"Dt",9,0,0,TRUE>>, <<"dc",3,1,1,TRUE>>, <<"dc",12,2,1,TRUE>>, <<"dc",20,3,1,TRUE>>, <<"Dt",9,0,1,FALSE>>, <<"Dt",16,0,3,TRUE>>, <<"NDt",0,3,2,TRUE>>, <<"NDt",0,4,1,FALSE>>, <<"Dt",24,0,5,FALSE>>},
                     s \in 0..4, f \in BOOLEAN, i \in BOOLEAN, k \in {1} } \cup
                { F([Base EXCEPT !.T = 30, !.D = 4, !.sdf = 2, !.kind = 2]) }
C02S_Steps == {1,2,3,99}
\* --- autostop (C04)
A(n, eps, epsAbs, T, file) == [Base EXCEPT !.T = T, !.ad = FALSE, !.tab = TRUE, !.ar = n, !.eps = eps, !.epsAbs = epsAbs, !.file = file, !.info = FALSE]
C04Q_Configs == { A(n, e, 1, 6, FALSE) : n \in 0..3, e \in {<<1,10>>, <<3,10>>} }
C04Q_Vals == { <<v>> : v \in {0, 8, 10, -9} }
C042_Configs == { [A(n, <<1,10>>, 3, 5, TRUE) EXCEPT !.sdf = s] : n \in 1..2, s \in {0, 2} }
C042_Vals == { <<v, w>> : v \in {2, 40}, w \in {-1, 50} }
C04S_Configs == { [A(n, e, a, 24, f) EXCEPT !.sdf = 3, !.mode = m[1], !.n = m[2], !.ad = (m[1] = "dc")] : n \in {1,2,3,5,8}, e \in {<<1,100>>, <<1,20>>, <<3,10>>}, a \in {1, 4}, f \in BOOLEAN, m \in {<<"Dt",0>>, <<"dc",2>>} }
C04S_Vals == {<<40,-50,3>>, <<41,-50,3>>, <<42,-51,2>>, <<40,-53,4>>, <<0,-50,3>>, <<40,-50,-3>>}
====
