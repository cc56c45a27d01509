---- MODULE MCVecPars ----
EXTENDS VecPars
AllKinds == {[name |-> "deltas", n |-> 3, cx |-> FALSE], [name |-> "gamma_parallel_vector", n |-> 3, cx |-> FALSE],
             [name |-> "etas", n |-> 2, cx |-> TRUE], [name |-> "gammas", n |-> 2, cx |-> FALSE], [name |-> "gs", n |-> 2, cx |-> TRUE],
             [name |-> "zs", n |-> 2, cx |-> TRUE]}
====
