---- MODULE MCCmdLine ----
EXTENDS CmdLine
N(nm) == [txt |-> "--" \o nm, nm |-> nm, pre |-> TRUE, i |-> <<>>, d |-> <<>>, z |-> <<>>]
Num(t, i, d) == [txt |-> t, nm |-> "", pre |-> FALSE, i |-> i, d |-> d, z |-> IF d = <<>> THEN <<>> ELSE <<<<d[1], 0>>>>]  \* d in halves
Txt(t) == [txt |-> t, nm |-> "", pre |-> FALSE, i |-> <<>>, d |-> <<>>, z |-> <<>>]
Z(t, a, b) == [Txt(t) EXCEPT !.z = <<<<a, b>>>>]
Numbers == {Num("3", <<3>>, <<6>>), Num("-4", <<-4>>, <<-8>>), Num("2.5", <<>>, <<5>>), Num("1e1", <<>>, <<20>>)}
FullW == {N("a"), N("b"), N("s"), N("f"), N("no_f"), N("g"), N("no_g"), N("t1"), N("zzz"), N(""), N("c"), N("l"), N("p"), N("ab"), Txt("-a"), Txt("a"),
          Txt("7x"), Txt("abc"), Z("(1,2)", 2, 4), Txt("(1,2")} \cup Numbers
Fix == << [name |-> "t1", type |-> "title", def |-> 0], [name |-> "a", type |-> "int", def |-> 7], [name |-> "b", type |-> "double", def |-> 3],
          [name |-> "s", type |-> "string", def |-> "dflt"], [name |-> "f", type |-> "bool", def |-> FALSE], [name |-> "g", type |-> "bool", def |-> TRUE],
          [name |-> "c", type |-> "complex", def |-> <<2,-2>>], [name |-> "l", type |-> "long", def |-> -1],
          [name |-> "ab", type |-> "int", def |-> 8], [name |-> "p", type |-> "zero", def |-> 6] >>
NoFix == <<>>
SmallW == {N("a"), N("f"), N("no_f"), N("b"), N("s"), N("t1"), Txt("-a"), Txt("abc")} \cup Numbers
RegSet == { [name |-> "a", type |-> "int", def |-> 7], [name |-> "a", type |-> "double", def |-> 1], [name |-> "f", type |-> "bool", def |-> FALSE],
            [name |-> "a", type |-> "bool", def |-> TRUE], [name |-> "no_f", type |-> "int", def |-> 2], [name |-> "a", type |-> "title", def |-> 0],
            [name |-> "t1", type |-> "title", def |-> 0], [name |-> "t1", type |-> "string", def |-> "q"] }
RegW == {N("a"), N("f"), N("no_f"), N("t1"), Num("3", <<3>>, <<6>>)}
Weighted == FullW  \* simulation
====
