---- MODULE MCElements ----
EXTENDS Elements
PickAll(s) == s
PickOne(s) == {RandomElement(s)}
Z == <<0, 0>>
Etas == {Z, <<1, 0>>, <<0, 2>>, <<1, -2>>}
Pics == {"IP", "UIP", "SCH"}
M0(N, K, Th, D, W, WA, eta, pic, av, fac) == [N |-> N, K |-> K, Th |-> Th, D |-> D, W |-> W, WA |-> WA, eta |-> eta, pic |-> pic, av |-> av, fac |-> fac]
FacOk(p) == CASE p.fac = "P" -> p.K = 0 /\ p.eta = Z /\ p.Th = 0 [] p.fac = "L" -> p.eta = Z [] p.fac = "U" -> p.K = 0 /\ p.Th = 0 [] OTHER -> TRUE
ModeAll(Ns, Ks, Ths, Ds, Ws, WAs, es, avs, facs) == {p \in [N : Ns, K : Ks, Th : Ths, D : Ds, W : Ws, WA : WAs, eta : es, pic : Pics, av : avs, fac : facs] : FacOk(p)}
ModeFull == ModeAll({2, 3, 4, 5}, {0, 1, 2}, {0, 1}, {0, -2, 3}, {0, 1}, {0, -1}, Etas, {"A", "Q", "AC", "QC", "C"}, {"P", "L", "U", "PL"})
ModeQ == ModeAll({3}, {0, 1}, {0, 2}, {0, -2}, {0, 1}, {0, -1}, {Z, <<1, -2>>, <<0, 1>>}, {"A"}, {"P", "PL"}) \cup
   ModeAll({3}, {0, 1}, {0}, {-2}, {0}, {0}, {<<1, 0>>}, {"A"}, {"U", "PL"})
ModeAv == ModeAll({2, 4}, {0, 1}, {0}, {1}, {0}, {0}, {Z}, {"A", "Q", "AC", "QC", "C"}, {"PL"})
AltFull == {p \in ModeAll({2, 3, 4}, {1, 2}, {0, 1}, {0, -2}, {0, 1}, {0, -1}, Etas, {"A", "Q"}, {"PL"}) : p.pic = "IP"}
AltQ == {p \in AltFull : p.N = 3 /\ p.K = 1 /\ p.av = "A" /\ (p.eta \in {<<1, 0>>, <<0, 2>>} => p.Th = 0)}
BiFull == {[N |-> N, K |-> K, Th |-> Th, D |-> 0, W |-> W, WA |-> WA, eta |-> e, eta2 |-> e2, do |-> do, av |-> "A", pic |-> "IP"] :
   N \in {2, 3}, K \in {0, 1}, Th \in {0, 1}, W \in {0, 1}, WA \in {0, 1}, e \in {Z, <<0, 1>>, <<1, -2>>}, e2 \in {<<2, 1>>, <<0, -1>>, <<3, 0>>}, do \in {0, 1, -1, 2}}
BiQ2 == {p \in BiFull : p.N = 3 /\ p.do \in {0, 1} /\ (p.eta2 # <<2, 1>> => p.Th = 0 /\ p.eta # Z) /\ p.WA = 0}
HomoFull == {[N |-> N, p |-> 2 + q, q |-> q, D |-> D, W |-> W, al |-> al, eta |-> e, av |-> av, pump |-> pu] :
   N \in {2, 3, 4}, q \in {0, 1, 2}, D \in {0, -2}, W \in {0, 1}, al \in {<<1, 0>>, <<0, -1>>, <<1, -2>>}, e \in {Z, <<0, 1>>, <<1, -2>>}, av \in {"A", "Q"}, pu \in BOOLEAN}
HomoOk == {p \in HomoFull : p.pump \/ p.eta = Z}
HomoQ == {p \in HomoOk : p.N = 3 /\ (p.al # <<1, -2>> => p.eta # <<1, -2>>) /\ p.D = -2 /\ p.av = "A"}
QbitFull == {p \in [K : {0, 1, 2}, P : {0, 1, 3}, D : {0, -2, 3}, eta : Etas, pic : Pics] : p.P > 0 => p.pic # "SCH"}
QbitQ == {p \in QbitFull : p.K < 2 /\ p.P < 3 /\ p.D = -2}
P2laFull == [K : {0, 1, 2}, P : {0}, D : {0, -2, 3}, eta : Etas]
SpinAll(TSs, dims, oms, gas) == {p \in [TS : TSs, dim : dims, th : {0, 1}, ph : {0, 1}, om : oms, ga : gas, loss : BOOLEAN, sch : BOOLEAN] :
   /\ (p.th = 0 => p.ph = 0) /\ (~p.sch => p.th = 0) /\ (p.loss => p.ga > 0)}
SpinFull == SpinAll({1, 2, 3, 4}, {0, 2, 3}, {0, 1, -2}, {0, 1, 2})
SpinQ == SpinAll({1, 2, 3}, {0, 3}, {-2}, {0, 1})
SpinRAll == {[TS |-> TS, dim |-> 0, th |-> th, ph |-> 0, om |-> om, ga |-> 1, loss |-> TRUE, sch |-> sch, as |-> as] :
   TS \in {1, 2, 3}, th \in {0, 1}, om \in {0, -2}, sch \in BOOLEAN, as \in BOOLEAN}
SpinROk == {p \in SpinRAll : (p.TS > 1 \/ p.th # 0) /\ (~p.sch => p.th = 0)}
BiTOk == {[N |-> 3, K |-> 1, Th |-> 0, D |-> 0, W |-> 0, WA |-> 0, eta |-> e, eta2 |-> <<2, 1>>, do |-> do, av |-> "A", pic |-> "IP", as |-> as] :
   e \in {Z, <<1, -2>>}, do \in {1, -1}, as \in BOOLEAN}
NoexFull == [N : {2, 3, 4}, K : {1, 2}, D : {0, -2}, eta : {Z, <<0, 1>>, <<1, -2>>}]
PartFull == {p \in [fin : {1, 2, 3}, om : {0, 1, 2}, V : {0, 2, -3}, kp : {1, 2}, mf : {0, 1, 2, 3}, pumped : BOOLEAN, pic : Pics] :
   (~p.pumped => p.V = 0 /\ p.kp = 1 /\ p.mf = 0)}
PartQ == {p \in PartFull : p.om = 1 /\ p.fin > 1 /\ (p.pumped => p.V # 2)}
MLFull == [de : {<<1, -2, 3>>, <<0, 0, 1>>}, eta : {<<Z, Z>>, << <<1, -2>>, <<0, 1>> >>, << <<2, 0>>, Z>>}, ga : {<<1, 2>>, <<2, 1>>, <<0, 1>>},
           gp : {<<0, 0, 0>>, <<1, 1, 1>>, <<1, 2, 4>>, <<0, 3, 1>>}, off : BOOLEAN, form : {"s", "v", "p"}]
MLOk == {p \in MLFull : p.form = "s" => (p.gp[1] = p.gp[2] /\ p.gp[2] = p.gp[3])}
MLQ == {p \in MLOk : p.eta # << <<2, 0>>, Z>> /\ p.ga # <<2, 1>> /\ p.de = <<1, -2, 3>> /\ (p.off = (p.form = "v"))}
TimhFull == {[m |-> << <<<<1, 2>>, <<0, -1>>, <<3, 0>>>>, <<<<-1, 1>>, <<0, 2>>, <<a, 0>>>>, <<<<0, b>>, <<1, 0>>, <<-2, -2>>>> >>] : a \in {0, 2}, b \in {0, -3}}
\* interactions
Md == {M0(N, K, Th, D, W, 0, Z, pic, "A", "PL") : N \in {2, 3}, K \in {0, 1}, Th \in {0, 1}, D \in {-2, 1}, W \in {0, 1}, pic \in Pics}
MdQ == {M0(3, K, 0, -2, W, 0, Z, pic, "A", "PL") : K \in {0, 1}, W \in {0, 1}, pic \in Pics}
MdS == {M0(N, K, 0, 1, W, 0, Z, pic, "A", "PL") : N \in {2}, K \in {1}, W \in {0, 1}, pic \in {"IP", "SCH"}}
Qb == {[K |-> K, P |-> 0, D |-> D, eta |-> Z, pic |-> pic] : K \in {0, 1}, D \in {-1, 2}, pic \in Pics}
QbQ == {q \in Qb : q.D = 2}
Sp == {[TS |-> TS, dim |-> d, th |-> 0, ph |-> 0, om |-> om, ga |-> ga, loss |-> FALSE, sch |-> sch] : TS \in {1, 2, 3}, d \in {0, 3}, om \in {1, -2}, ga \in {0, 1}, sch \in BOOLEAN}
SpQ2 == {s \in Sp : s.TS \in {1, 3} /\ s.om = -2 /\ s.dim = 3}
Gs == {Z, <<2, 0>>, <<0, 1>>, <<1, -2>>}
GQ == {<<0, 1>>, <<1, -2>>}
JcqFull == [q : Qb, m : Md, g : Gs]
JcqQ == [q : QbQ, m : MdQ, g : GQ]
JcsFull == [s : Sp, m : Md, g : Gs]
JcsQ == {c \in [s : SpQ2, m : MdQ, g : GQ] : c.g = <<0, 1>> => c.s.ga = 0}
CmFull == [m : Md, m2 : Md, u : Gs, cp : {0, 1, 2}]
CmQ == [m : MdQ, m2 : MdS, u : GQ, cp : {0, 1, 2}]
DickeFull == [m : Md, s : Sp, u : {Z, <<1, 0>>, <<-2, 0>>}, y : {Z, <<3, 0>>, <<-1, 0>>}]
DickeQ == [m : MdQ, s : SpQ2, u : {<<-2, 0>>}, y : {<<3, 0>>}]
PartI(V, kp, mf, pic) == [fin |-> 3, om |-> 1, V |-> V, kp |-> kp, mf |-> mf, pumped |-> TRUE, pic |-> pic]
Pics2 == {"IP", "SCH"}
PocFull == {[m |-> m, p |-> PartI(V, kp, mf, pic), U |-> (IF V < 0 THEN -1 ELSE 1) * U, ee |-> (IF V < 0 THEN -1 ELSE 1) * U * (IF U = 0 THEN 0 ELSE 2)] :
   m \in Md, V \in {4, -4}, kp \in {1, 2}, mf \in 0..3, pic \in Pics2, U \in {0, 1}}
PocQ == {c \in PocFull : c.m \in MdQ /\ c.U # 0 /\ c.p.kp = 1}
\* ctor: "v" classical potential given, "g" effective pump given, "p" pumped particle, "pg" pumped particle with the effective pump given
MdP == {M0(2, 1, 0, -2, W, 0, Z, pic, "A", "PL") : W \in {0, 1}, pic \in {"IP", "SCH"}}
PacMid == {c \in [m : MdP, p : {PartI(V, kp, mf, pic) : V \in {4, -4}, kp \in {1, 2}, mf \in 0..3, pic \in Pics2}, U : {0, 1, -1}, ee : {-2, 0, 2, 1}, mf : 0..3, kc : {1, 2}, ct : {"v", "g", "p", "pg"}, pumped : BOOLEAN] :
   /\ c.pumped = (c.ct \in {"p", "pg"}) /\ c.kc + c.p.kp <= 3 /\ (~c.pumped => c.p.kp = 1 /\ c.p.mf = 0)
   /\ (c.ct \in {"v", "p"} => c.U * c.p.V >= 0 /\ c.ee = 2 * c.U) /\ (c.ct \in {"g", "pg"} => c.ee # 2)}
PacQ == {c \in PacMid : c.m.W = 1 /\ (c.U # 0 \/ c.ct = "g") /\ (c.ct \in {"g", "pg"} => c.ee = -2 /\ c.p.V = 4) /\ (c.ct \in {"v", "p"} => c.p.V = -4)}
P2mFull == {c \in [m : MdP, m2 : MdP, p : {[fin |-> 3, om |-> 1, V |-> 0, kp |-> 1, mf |-> 0, pumped |-> FALSE, pic |-> pic] : pic \in Pics2},
     u0 : {1, -4, 0}, u1 : {4, -1}, ee : {2, -2, 0}, mf0 : 0..3, mf1 : 0..3, k0 : {1, 2}, k1 : {1, 2}, ph : 0..3] :
   c.u0 * c.u1 >= 0 /\ c.k0 + c.k1 <= 3 /\ c.ee = (IF c.u0 = 0 THEN 0 ELSE IF c.u0 > 0 THEN 2 ELSE -2)}
P2mQ == {c \in P2mFull : c.u0 = 1 /\ c.m.W = 0 /\ c.m2.W = 1 /\ c.ph \in {0, 1} /\ c.m2.pic = c.p.pic}
MljcFull == [m : Md, g : {<<Z, <<1, 0>>>>, << <<1, -2>>, <<0, 3>> >>, << <<2, 0>>, Z>>}]
McFull == [N : {2, 3, 4}, M : {2, 3}]
RdoFull == {[dims |-> d, off |-> o, neg |-> n] : d \in {<<2>>, <<3>>, <<2, 2>>, <<2, 3>>, <<3, 2>>}, o \in BOOLEAN, n \in BOOLEAN}
RdoOk == {p \in RdoFull : p.neg => (p.off /\ Len(p.dims) = 2)}
ParsFull(k) == CASE k = "mode" -> ModeFull [] k = "modeAlt" -> AltFull [] k = "bichro" -> BiFull [] k = "homo" -> HomoOk [] k = "qbit" -> QbitFull [] k = "p2la" -> P2laFull
  [] k = "spin" -> SpinFull [] k = "noex" -> NoexFull [] k = "part" -> PartFull [] k = "ml" -> MLOk [] k = "timh" -> TimhFull [] k = "jcq" -> JcqFull [] k = "jcs" -> JcsFull [] k = "cm" -> CmFull
  [] k = "dicke" -> DickeFull [] k = "poc" -> PocFull [] k = "pac" -> PacMid [] k = "p2m" -> P2mFull [] k = "mljc" -> MljcFull [] k = "mcorr" -> McFull [] k = "qmcorr" -> [N : {2, 3, 4}]
  [] OTHER -> RdoOk
ParsQuick(k) == CASE k = "mode" -> ModeQ \cup ModeAv [] k = "modeAlt" -> AltQ [] k = "bichro" -> BiQ2 [] k = "homo" -> HomoQ [] k = "qbit" -> QbitQ [] k = "p2la" -> P2laFull
  [] k = "spin" -> SpinQ [] k = "noex" -> NoexFull [] k = "spinR" -> SpinROk [] k = "bichroT" -> BiTOk [] k = "part" -> PartQ [] k = "ml" -> MLQ [] k = "timh" -> TimhFull [] k = "jcq" -> JcqQ [] k = "jcs" -> JcsQ [] k = "cm" -> CmQ
  [] k = "dicke" -> DickeQ [] k = "poc" -> PocQ [] k = "pac" -> PacQ [] k = "p2m" -> P2mQ [] k = "mljc" -> MljcFull [] k = "mcorr" -> McFull [] k = "qmcorr" -> [N : {2, 3, 4}]
  [] OTHER -> RdoOk
KFree == {"mode", "modeAlt", "bichro", "homo", "qbit", "p2la", "spin", "part", "ml", "timh"}
KInt == {"jcq", "jcs", "cm", "dicke", "poc", "pac", "p2m", "mljc"}
KAvg == {"mcorr", "qmcorr", "rdo"}
KAll == KFree \cup KInt \cup KAvg
KDiss == KFree \cup KAvg \cup {"noex"}
KSpinR == {"spinR"}
KBiT == {"bichroT"}
OGen == {"g"}
T3 == {0, 1}
KDyn == KFree \cup KInt
ODiss == {"g", "j", "r", "s", "d", "a"}
ODyn == {"g", "u"}
T2 == {1, 3}
T4 == {-2, 0, 1, 2, 3}
====
