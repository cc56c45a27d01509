---- MODULE MCStructOps ----
EXTENDS StructOps
U(lz, k, lm, lp, s) == [lz |-> lz, k |-> k, lm |-> lm, lp |-> lp, s |-> s]
\* all lengths: the constructor's consistency check
AllLengths == {U(lz, k, lm, lp, 1) : lz \in 0..3, k \in 0..2, lm \in 0..3, lp \in 0..3} \ ({U(lz, k, 0, 0, 1) : lz \in 0..1, k \in 2..2}
              \cup {U(0, k, 0, 0, 1) : k \in 0..1})   \* no off-diagonals at a distance beyond the dimension: left open
Few == {U(2,0,0,0,1), U(2,1,1,1,2), U(2,1,1,0,1), U(3,0,0,0,3), U(3,1,2,2,1), U(0,1,0,2,2), U(0,2,1,1,1), U(3,2,0,1,2)}
Dim2 == {U(2,1,1,1,2), U(0,1,0,1,3), U(2,0,0,0,2), U(0,1,1,0,1)}
Dim23 == {U(2,1,1,1,2), U(0,1,0,1,3), U(3,1,2,2,1), U(0,2,1,0,2), U(3,0,0,0,1)}
Furn == {U(2,1,1,1,2), U(0,1,0,1,3), U(3,1,2,2,1), U(0,2,1,1,2), U(3,0,0,0,1), U(2,0,0,0,2)}
Furn2 == {U(2,1,1,1,2), U(0,1,0,1,3), U(2,0,0,0,2)}
Sc == {<<2,0>>, <<0,1>>, <<-1,1>>}
Sc1 == {<<0,1>>, <<2,-1>>}
NoSc == {}
NoGens == {}
NoTimes == {}
NoSig == {}
AllSigs == {<<l,r>> : l \in 0..2, r \in 0..2}
G1 == << <<0,0>>, <<0,1>>, <<0,3>> >>
G2 == << <<0,0>>, <<1,2>>, <<0,1>> >>
G3 == << <<0,2>>, <<0,1>>, <<1,0>> >>
G4 == << <<0,0>>, <<0,1>>, <<1,3>> >>   \* agrees with G1 in its first difference only
GensAll == {G1, G2, G3, G4}
GensTwo == {G1, G3}
T3 == {0, 1, 2, 3}
T2 == {0, 1, 3}
UAlg == {"neg", "dag", "mhc", "phc", "phci", "mul", "copy"}
UFew == {"dag", "mul"}
UNone == {}
URot == {"pushf", "furnish", "prop", "dag", "mul"}
URotAll == {"pushf", "furnish", "prop", "dag", "mul", "swap", "phc", "mhc", "neg"}
BAll == {"add", "sub", "kron"}
BKron == {"kron"}
====
