---- MODULE MCResume ----
EXTENDS Resume
Caps == {"h", "hl", "xhl", "xl", "l", "x", "xh"}
KQ == [traj : {"mcwf"}, engine : {"boost", "gsl"}, caps : Caps, seed : {1, 7}]
  \cup [traj : {"master"}, engine : {"boost", "gsl"}, caps : {"h", "hl", "xhl", "xl"}, seed : {1}]
  \cup [traj : {"sim"}, engine : {"boost", "gsl"}, caps : {"-"}, seed : {1, 2}]
  \cup [traj : {"ens"}, engine : {"boost"}, caps : {"hl", "xhl"}, seed : {3}]
====
