---- MODULE MCRandomState ----
EXTENDS RandomState
====
