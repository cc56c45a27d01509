---- MODULE MCElemPars ----
EXTENDS ElemPars
====
