---- MODULE MCExactProp ----
EXTENDS ExactProp
W1 == << <<0,0>>, <<0,1>>, <<1,3>> >>
W2 == << <<0,2>>, <<-1,1>>, <<0,-1>> >>
T3 == {0, 1, 2}
T4 == {-1, 0, 1, 2, 3}
KAll == {"u1", "u2", "h0", "h1", "h2"}
====
