---- MODULE MCEvolve ----
EXTENDS Evolve
F == FALSE
Tr == TRUE
Inis2 == {[site |-> 0, amp |-> Zero, den |-> 1, w |-> 1], [site |-> 1, amp |-> One, den |-> 1, w |-> 0], [site |-> 2, amp |-> One, den |-> 1, w |-> 0],
          [site |-> 1, amp |-> <<3, 0>>, den |-> 5, w |-> 4], [site |-> 1, amp |-> <<0, -4>>, den |-> 5, w |-> 3]}
Inis3 == Inis2 \cup {[site |-> 3, amp |-> <<0, 3>>, den |-> 5, w |-> 4], [site |-> 3, amp |-> One, den |-> 1, w |-> 0]}
R345 == <<3, 4, 5>>
R43 == <<4, -3, 5>>
RQ == <<0, 1, 1>>
R0 == <<1, 0, 1>>
Dyn2(rots, ds, ls, inis) == {[g |-> <<g>>, gden |-> 1, rot |-> r, d |-> d, lossy |-> l, ini |-> i] : g \in {One, <<0, 1>>}, r \in rots, d \in ds, l \in ls, i \in inis}
Dyn3(ds, ls, inis) == {[g |-> g, gden |-> 5, rot |-> RQ, d |-> d, lossy |-> l, ini |-> i] : g \in {<< <<3, 0>>, <<0, 4>> >>, << <<-4, 0>>, <<3, 0>> >>}, d \in ds, l \in ls, i \in inis}
AllEms == [1..3 -> BOOLEAN]
Drive(evol, entry, pic, N, J, ems, V) == [evol |-> evol, entry |-> entry, pic |-> pic, N |-> N, J |-> J, ems |-> ems, V |-> V]
Pics == {"IP", "UIP", "Sch"}
Drives(Vs, emss) == {d \in [evol : {"single", "ensemble", "master"}, entry : {"psi", "rho", "master"}, pic : Pics, N : 1..3, J : SUBSET (1..3), ems : emss, V : Vs] :
   /\ (d.evol # "ensemble" => d.N = 2) /\ (d.entry = "master" => d.evol = "master") /\ d.J \subseteq 1..d.N
   /\ (d.evol = "master" => d.J = {}) /\ (d.evol = "single" => d.J \subseteq {1})}
Ok(c) == /\ (c.J # {} => c.lossy /\ c.entry = "psi") /\ (c.mix => c.entry # "psi" /\ (c.evol = "master" \/ c.entry = "master"))
         /\ (Measures(c) # <<>> /\ c.ems[1] => c.ini.w = 0 \/ c.ini.site = 0 \/ ~(c.lossy \/ c.mix)) /\ (c.def => c.V = <<0>> /\ Len(c.g) = 1)
         /\ (c.ds \/ c.rs)
Misc(K, cut, nd, lv, mix, ds, rs, first, def) == [K |-> K, cut |-> cut, nd |-> nd, lv |-> lv, mix |-> mix, ds |-> ds, rs |-> rs, first |-> first, def |-> def]
Whole(dy, dr, re) == [g |-> dy.g, gden |-> dy.gden, rot |-> dy.rot, d |-> dy.d, lossy |-> dy.lossy, ini |-> dy.ini,
  evol |-> dr.evol, entry |-> dr.entry, pic |-> dr.pic, N |-> dr.N, J |-> dr.J, ems |-> dr.ems, V |-> dr.V,
  K |-> re.K, cut |-> re.cut, nd |-> re.nd, lv |-> re.lv, mix |-> re.mix, ds |-> re.ds, rs |-> re.rs, first |-> re.first, def |-> re.def]
Full(dys, drs, res) == {c \in {Whole(dy, dr, re) : dy \in dys, dr \in drs, re \in res} : Ok(c)}
Rests(Ks) == {Misc(K, cut, nd, lv, mix, ds, rs, first, def) : K \in Ks, cut \in {2, 3}, nd \in BOOLEAN, lv \in BOOLEAN, mix \in BOOLEAN, ds \in BOOLEAN, rs \in BOOLEAN, first \in {1, 4}, def \in BOOLEAN}
\* quick: every way of driving with one dynamics, every dynamics with a few ways of driving
EmsQ == {<<F, F, F>>, <<Tr, F, F>>, <<F, Tr, F>>, <<F, F, Tr>>, <<Tr, F, Tr>>, <<Tr, Tr, Tr>>}
RestA == {Misc(2, 3, F, Tr, F, Tr, Tr, 4, F), Misc(2, 2, Tr, F, Tr, Tr, Tr, 1, F)}
SetA == Full({d \in Dyn2({R345}, {1}, BOOLEAN, Inis2) : d.g = <<One>> /\ d.ini.site = 1 /\ d.ini.den = 1}, Drives({<<>>, <<0>>, <<1>>}, EmsQ), RestA)
DrB == {Drive("single", "psi", "IP", 2, {}, <<F, F, F>>, <<>>), Drive("ensemble", "psi", "UIP", 2, {}, <<F, Tr, Tr>>, <<0>>), Drive("master", "psi", "Sch", 2, {}, <<F, Tr, Tr>>, <<1>>),
        Drive("master", "rho", "IP", 2, {}, <<F, Tr, Tr>>, <<0>>), Drive("ensemble", "psi", "IP", 3, {2}, <<F, Tr, F>>, <<0>>)}
SetB == Full(Dyn2({R345, R43, RQ, R0}, {0, 1, -1}, BOOLEAN, Inis2), DrB, {Misc(3, 3, F, Tr, F, Tr, F, 1, F)})
SetC == Full(Dyn2({RQ}, {1}, {F}, Inis2), {Drive(e, en, "IP", 2, {}, <<Tr, Tr, Tr>>, <<0>>) : e \in {"single", "ensemble", "master"}, en \in {"psi", "rho"}}, {r \in Rests({1}) : r.cut = 2 /\ r.first = 1})
DrD == {[d EXCEPT !.V = V] : d \in DrB, V \in {<<0>>, <<1>>, <<0, 2>>, <<2, 1>>}} \cup {Drive("ensemble", "psi", "Sch", 2, {1, 2}, <<Tr, F, Tr>>, <<0, 2>>)}
SetD == {c \in Full(Dyn3({0, 1}, BOOLEAN, Inis3), DrD, {Misc(2, 2, F, Tr, F, F, Tr, 1, F)}) : c.g[1][1] = 3 \/ c.d = 1}
QuickSet == SetA \cup SetB \cup SetC \cup SetD
Quick(x) == QuickSet
\* simulation: everything at random
DrAll2 == Drives({<<>>, <<0>>, <<1>>}, AllEms)
DrAll3 == Drives({<<0>>, <<1>>, <<0, 2>>, <<2, 1>>}, AllEms)
DyAll2 == Dyn2({R345, R43, RQ, R0}, -1..2, BOOLEAN, Inis2)
DyAll3 == Dyn3(-1..2, BOOLEAN, Inis3)
ReAll2 == Rests(1..3)
ReAll3 == {r \in Rests(1..2) : ~r.def}
AtRandom(x) == {c \in (IF RandomElement({1, 2}) = 1 THEN {Whole(RandomElement(DyAll2), RandomElement(DrAll2), RandomElement(ReAll2))}
                  ELSE {Whole(RandomElement(DyAll3), RandomElement(DrAll3), RandomElement(ReAll3))}) : Ok(c)}
====
