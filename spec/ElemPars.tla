------------------------------ MODULE ElemPars ------------------------------
(* The parameters of whole simulations, as scripts declare them: drivers, elements and interactions, some of them more than once
   with different modifiers. Every one can be set under its documented name, has its documented default if it is not mentioned, and is not
   influenced by any other. Values are kept as the text they are given or printed as. *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils, FiniteSets
CONSTANTS MaxWords, Simulating
VARIABLES sys, vals, words
vars == <<sys, vals, words>>
\* name, type and default of each
System1 == <<
  [n |-> "eps", t |-> "double", d |-> "1e-06"],
  [n |-> "epsAbs", t |-> "double", d |-> "1e-12"],
  [n |-> "logLevel", t |-> "int", d |-> "0"],
  [n |-> "seed", t |-> "size", d |-> "1001"],
  [n |-> "prngStream", t |-> "size", d |-> "1"],
  [n |-> "noise", t |-> "bool", d |-> "1"],
  [n |-> "nTraj", t |-> "size", d |-> "500"],
  [n |-> "dpLimit", t |-> "double", d |-> "0.01"],
  [n |-> "overshootTolerance", t |-> "double", d |-> "10"],
  [n |-> "nBins", t |-> "size", d |-> "0"],
  [n |-> "nJumpsPerBin", t |-> "size", d |-> "50"],
  [n |-> "T", t |-> "double", d |-> "1"],
  [n |-> "dc", t |-> "int", d |-> "10"],
  [n |-> "Dt", t |-> "double", d |-> "0.1"],
  [n |-> "NDt", t |-> "int", d |-> "0"],
  [n |-> "o", t |-> "string", d |-> ""],
  [n |-> "initialFileName", t |-> "string", d |-> ""],
  [n |-> "precision", t |-> "zero", d |-> "6"],
  [n |-> "streamInfo", t |-> "bool", d |-> "1"],
  [n |-> "firstStateStream", t |-> "bool", d |-> "1"],
  [n |-> "sdf", t |-> "size", d |-> "0"],
  [n |-> "autoStopEpsilon", t |-> "double", d |-> "1e-06"],
  [n |-> "autoStopEpsilonAbs", t |-> "double", d |-> "1e-12"],
  [n |-> "autoStopRepetition", t |-> "size", d |-> "0"],
  [n |-> "evol", t |-> "method", d |-> "single"],
  [n |-> "ems", t |-> "ems", d |-> "000"],
  [n |-> "qbitInit", t |-> "complex", d |-> "(0,0)"],
  [n |-> "deltaA", t |-> "double", d |-> "-10"],
  [n |-> "etat", t |-> "complex", d |-> "(0,0)"],
  [n |-> "gamma", t |-> "double", d |-> "10"],
  [n |-> "gamma_parallel", t |-> "double", d |-> "0"],
  [n |-> "cutoff", t |-> "size", d |-> "10"],
  [n |-> "minitFock", t |-> "size", d |-> "0"],
  [n |-> "minit", t |-> "complex", d |-> "(0,0)"],
  [n |-> "modeStreamLevel", t |-> "size", d |-> "0"],
  [n |-> "deltaC", t |-> "double", d |-> "-10"],
  [n |-> "omegaKerr", t |-> "double", d |-> "0"],
  [n |-> "omegaKerrAlter", t |-> "double", d |-> "0"],
  [n |-> "eta", t |-> "complex", d |-> "(0,0)"],
  [n |-> "kappa", t |-> "double", d |-> "10"],
  [n |-> "nTh", t |-> "double", d |-> "0"],
  [n |-> "cutoffB", t |-> "size", d |-> "10"],
  [n |-> "minitFockB", t |-> "size", d |-> "0"],
  [n |-> "minitB", t |-> "complex", d |-> "(0,0)"],
  [n |-> "modeStreamLevelB", t |-> "size", d |-> "0"],
  [n |-> "deltaCB", t |-> "double", d |-> "-10"],
  [n |-> "omegaKerrB", t |-> "double", d |-> "0"],
  [n |-> "omegaKerrAlterB", t |-> "double", d |-> "0"],
  [n |-> "etaB", t |-> "complex", d |-> "(0,0)"],
  [n |-> "kappaB", t |-> "double", d |-> "10"],
  [n |-> "nThB", t |-> "double", d |-> "0"],
  [n |-> "deltaC_OtherB", t |-> "double", d |-> "0"],
  [n |-> "etaOtherB", t |-> "complex", d |-> "(0,0)"],
  [n |-> "g", t |-> "complex", d |-> "(1,0)"],
  [n |-> "picture", t |-> "picture", d |-> "IP"]>>
System2 == <<
  [n |-> "epsX", t |-> "double", d |-> "1e-06"],
  [n |-> "epsAbsX", t |-> "double", d |-> "1e-12"],
  [n |-> "logLevelX", t |-> "int", d |-> "0"],
  [n |-> "seedX", t |-> "size", d |-> "1001"],
  [n |-> "prngStreamX", t |-> "size", d |-> "1"],
  [n |-> "noiseX", t |-> "bool", d |-> "1"],
  [n |-> "nTrajX", t |-> "size", d |-> "500"],
  [n |-> "dpLimitX", t |-> "double", d |-> "0.01"],
  [n |-> "overshootToleranceX", t |-> "double", d |-> "10"],
  [n |-> "nBinsX", t |-> "size", d |-> "0"],
  [n |-> "nJumpsPerBinX", t |-> "size", d |-> "50"],
  [n |-> "TX", t |-> "double", d |-> "1"],
  [n |-> "dcX", t |-> "int", d |-> "10"],
  [n |-> "DtX", t |-> "double", d |-> "0.1"],
  [n |-> "NDtX", t |-> "int", d |-> "0"],
  [n |-> "oX", t |-> "string", d |-> ""],
  [n |-> "initialFileNameX", t |-> "string", d |-> ""],
  [n |-> "precisionX", t |-> "zero", d |-> "6"],
  [n |-> "streamInfoX", t |-> "bool", d |-> "1"],
  [n |-> "firstStateStreamX", t |-> "bool", d |-> "1"],
  [n |-> "sdfX", t |-> "size", d |-> "0"],
  [n |-> "autoStopEpsilonX", t |-> "double", d |-> "1e-06"],
  [n |-> "autoStopEpsilonAbsX", t |-> "double", d |-> "1e-12"],
  [n |-> "autoStopRepetitionX", t |-> "size", d |-> "0"],
  [n |-> "evolX", t |-> "method", d |-> "single"],
  [n |-> "emsX", t |-> "ems", d |-> "000"],
  [n |-> "omrec", t |-> "double", d |-> "1"],
  [n |-> "fin", t |-> "size", d |-> "6"],
  [n |-> "pinit", t |-> "packet", d |-> "(-0.5,0,0.1,0)"],
  [n |-> "HOinitn", t |-> "int", d |-> "-1"],
  [n |-> "vClass", t |-> "double", d |-> "-10"],
  [n |-> "kPart", t |-> "size", d |-> "1"],
  [n |-> "modePart", t |-> "mf", d |-> "Sin"],
  [n |-> "omrecB", t |-> "double", d |-> "1"],
  [n |-> "finB", t |-> "size", d |-> "6"],
  [n |-> "pinitB", t |-> "packet", d |-> "(-0.5,0,0.1,0)"],
  [n |-> "HOinitnB", t |-> "int", d |-> "-1"],
  [n |-> "vClassB", t |-> "double", d |-> "-10"],
  [n |-> "kPartB", t |-> "size", d |-> "1"],
  [n |-> "modePartB", t |-> "mf", d |-> "Sin"],
  [n |-> "Unot", t |-> "double", d |-> "-1"],
  [n |-> "kCav", t |-> "size", d |-> "1"],
  [n |-> "modeCav", t |-> "mf", d |-> "Sin"],
  [n |-> "etaeff", t |-> "double", d |-> "0"],
  [n |-> "UnotB", t |-> "double", d |-> "-1"],
  [n |-> "kCavB", t |-> "size", d |-> "1"],
  [n |-> "modeCavB", t |-> "mf", d |-> "Sin"],
  [n |-> "etaeffB", t |-> "double", d |-> "0"],
  [n |-> "cutoff", t |-> "size", d |-> "10"],
  [n |-> "minitFock", t |-> "size", d |-> "0"],
  [n |-> "minit", t |-> "complex", d |-> "(0,0)"],
  [n |-> "modeStreamLevel", t |-> "size", d |-> "0"],
  [n |-> "deltaC", t |-> "double", d |-> "-10"],
  [n |-> "omegaKerr", t |-> "double", d |-> "0"],
  [n |-> "omegaKerrAlter", t |-> "double", d |-> "0"],
  [n |-> "kappa", t |-> "double", d |-> "10"],
  [n |-> "nTh", t |-> "double", d |-> "0"],
  [n |-> "homodyneAmplitude", t |-> "complex", d |-> "(0,0)"],
  [n |-> "cutoffP", t |-> "size", d |-> "10"],
  [n |-> "minitFockP", t |-> "size", d |-> "0"],
  [n |-> "minitP", t |-> "complex", d |-> "(0,0)"],
  [n |-> "modeStreamLevelP", t |-> "size", d |-> "0"],
  [n |-> "deltaCP", t |-> "double", d |-> "-10"],
  [n |-> "omegaKerrP", t |-> "double", d |-> "0"],
  [n |-> "omegaKerrAlterP", t |-> "double", d |-> "0"],
  [n |-> "etaP", t |-> "complex", d |-> "(0,0)"],
  [n |-> "twoS", t |-> "size", d |-> "1"],
  [n |-> "spinDim", t |-> "size", d |-> "0"],
  [n |-> "theta", t |-> "double", d |-> "0"],
  [n |-> "phi", t |-> "double", d |-> "0"],
  [n |-> "omega", t |-> "double", d |-> "1"],
  [n |-> "gamma", t |-> "double", d |-> "1"],
  [n |-> "twoSB", t |-> "size", d |-> "1"],
  [n |-> "spinDimB", t |-> "size", d |-> "0"],
  [n |-> "thetaB", t |-> "double", d |-> "0"],
  [n |-> "phiB", t |-> "double", d |-> "0"],
  [n |-> "omegaB", t |-> "double", d |-> "1"],
  [n |-> "gammaB", t |-> "double", d |-> "1"],
  [n |-> "fLimitXUL", t |-> "double", d |-> "2"],
  [n |-> "fLimitYUL", t |-> "double", d |-> "2"],
  [n |-> "fLimitXL", t |-> "double", d |-> "-2"],
  [n |-> "fLimitXU", t |-> "double", d |-> "2"],
  [n |-> "fLimitYL", t |-> "double", d |-> "-2"],
  [n |-> "fLimitYU", t |-> "double", d |-> "2"],
  [n |-> "fStep", t |-> "double", d |-> "0.1"],
  [n |-> "fCutoff", t |-> "int", d |-> "100"],
  [n |-> "fLimitXULB", t |-> "double", d |-> "2"],
  [n |-> "fLimitYULB", t |-> "double", d |-> "2"],
  [n |-> "fLimitXLB", t |-> "double", d |-> "-2"],
  [n |-> "fLimitXUB", t |-> "double", d |-> "2"],
  [n |-> "fLimitYLB", t |-> "double", d |-> "-2"],
  [n |-> "fLimitYUB", t |-> "double", d |-> "2"],
  [n |-> "fStepB", t |-> "double", d |-> "0.1"],
  [n |-> "fCutoffB", t |-> "int", d |-> "100"]>>
TableOf(s) == IF s = 1 THEN System1 ELSE System2
Texts(t) == CASE t = "double" -> {"2.25", "-0.5", "1e-07"} [] t = "int" -> {"7", "-3"} [] t = "size" -> {"7", "12"} [] t = "complex" -> {"(2.5,-1)", "(0,3)"}
              [] t = "string" -> {"file.d", "x"} [] t = "zero" -> {"3", "11"} [] t = "method" -> {"ensemble", "master"} [] t = "picture" -> {"UIP", "Sch"}
              [] t = "ems" -> {"101", "010"} [] t = "packet" -> {"(0.25,-3,0.5,1)", "(-1,2.5,0.125,0)"} [] t = "mf" -> {"Cos", "Plus", "Minus"} [] OTHER -> {"1", "0"}
Pick(S, st) == IF Simulating THEN {RandomElement(S)} ELSE S
Defaults(s) == [i \in 1..Len(TableOf(s)) |-> TableOf(s)[i].d]
Init == /\ sys \in {1, 2} /\ vals = Defaults(sys) /\ words = <<>>
Set == /\ Len(words) < MaxWords
       /\ \E i \in Pick(1..Len(vals), vals) : \E x \in Pick(Texts(TableOf(sys)[i].t), vals) :
            /\ vals' = [vals EXCEPT ![i] = x]
            \* a switch is set by its name and cleared by its negated name
            /\ words' = Append(words, IF TableOf(sys)[i].t = "bool" THEN <<IF x = "1" THEN TableOf(sys)[i].n ELSE "no_" \o TableOf(sys)[i].n>> ELSE <<TableOf(sys)[i].n, x>>)
       /\ UNCHANGED sys
Next == Set
Spec == Init /\ [][Next]_vars
\* ---- design: names are unique, and only what is mentioned differs from its default
NamesUnique == \A s \in {1, 2} : \A i \in 1..Len(TableOf(s)) : \A j \in 1..Len(TableOf(s)) : TableOf(s)[i].n = TableOf(s)[j].n => i = j
Mentioned(n) == \E k \in 1..Len(words) : words[k][1] \in {n, "no_" \o n}
OnlyMentioned == \A i \in 1..Len(vals) : Mentioned(TableOf(sys)[i].n) \/ vals[i] = TableOf(sys)[i].d
Emit == (Simulating /\ Len(words) < MaxWords) \/ CSVWrite("%1$s", <<ToJson([in |-> [sys |-> sys, words |-> words], exp |-> [vals |-> vals]])>>, IOEnv.OUT)
=============================================================================
