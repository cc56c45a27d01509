------------------------------ MODULE VecPars ------------------------------
(* Vector-valued parameters on the command line: the detunings, pumps, decays and couplings of multilevel elements.
   A value is an opening bracket, as many numbers as the parameter has components separated by commas, and a closing bracket; nothing else is
   accepted.  A written value starts out well formed and is then edited (a symbol is lost, added or replaced), as a user may mistype it.
   Numbers are pairs <<re, im>> of quarters; the symbols are strings. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Kinds,   \* [name, n |-> number of components, cx |-> whether complex]
          MaxEdits, Simulated
VARIABLES pc, line, edits
vars == <<pc, line, edits>>

Reals == {<<4,0>>, <<-10,0>>, <<1,0>>}
Complexes == {<<4,0>>, <<0,-6>>, <<3,8>>}
Num(v) == [s |-> "num", v |-> v]
Sym(x) == [s |-> x]
Strays == {"[", "]", ",", ";", "{", "}", "x"}
IsNum(t) == t.s = "num"
Pool(k) == IF k.cx THEN Complexes ELSE Reals

WellFormed(k, f) == [i \in 1..(2*k.n + 1) |-> IF i = 1 THEN Sym("[") ELSE IF i = 2*k.n + 1 THEN Sym("]") ELSE IF i % 2 = 0 THEN Num(f[i \div 2]) ELSE Sym(",")]

\* ---- the reader: one symbol at a time --------------------------------------------------------------------
Blank(t) == t.s = " "
RECURSIVE Reader(_, _, _, _)
Reader(k, ts, i, st) ==   \* st: [want |-> "open" | "num" | "sep" | "done" | "error", v |-> numbers so far]
  IF i > Len(ts) \/ st.want = "error" THEN st
  ELSE LET t == ts[i] bad == [st EXCEPT !.want = "error"] IN
    Reader(k, ts, i+1,
      CASE st.want = "open" -> IF t.s = "[" THEN [st EXCEPT !.want = "num"] ELSE bad
        [] st.want = "num"  -> IF IsNum(t) THEN [want |-> "sep", v |-> Append(st.v, t.v)] ELSE bad
        [] st.want = "sep"  -> IF Len(st.v) < k.n /\ t.s = "," THEN [st EXCEPT !.want = "num"]
                                    ELSE IF Len(st.v) = k.n /\ t.s = "]" THEN [st EXCEPT !.want = "done"] ELSE bad
        [] OTHER            -> bad)
Read(k, ts) == Reader(k, ts, 1, [want |-> "open", v |-> <<>>])
Accepted(k, ts) == Read(k, ts).want = "done"

\* ---- mistyping -------------------------------------------------------------------------------------------
\* two numbers written next to each other would be one number; where blanks may stand is left open, but they do not separate
Readable(ts) == /\ Len(ts) > 0
                /\ \A i \in 1..(Len(ts)-1) : ~(IsNum(ts[i]) /\ IsNum(ts[i+1]))
                /\ \A i \in 1..Len(ts) : Blank(ts[i]) => /\ i > 1 /\ i < Len(ts)
                                                         /\ IsNum(ts[i+1])
                                                         /\ IsNum(ts[i-1])
Without(ts, i) == SubSeq(ts, 1, i-1) \o SubSeq(ts, i+1, Len(ts))
With(ts, i, t) == SubSeq(ts, 1, i) \o <<t>> \o SubSeq(ts, i+1, Len(ts))
Extra(k) == {Sym(x) : x \in Strays \cup {" "}} \cup {Num(v) : v \in {<<8,0>>}}
Edited(k, ts) == {x \in ({Without(ts, i) : i \in 1..Len(ts)} \cup {With(ts, i, t) : i \in 0..Len(ts), t \in Extra(k)} \cup {[ts EXCEPT ![i] = t] : i \in 1..Len(ts), t \in Extra(k)}) : Readable(x)}

Pick(S) == IF Simulated THEN {RandomElement(S)} ELSE S
NoLine == [first |-> "", k |-> [name |-> "", n |-> 0, cx |-> FALSE], ts |-> <<>>, after |-> FALSE]
Init == pc = "start" /\ line = NoLine /\ edits = 0
Begin == /\ pc = "start"
         /\ \E k \in Pick(Kinds) : \E f \in Pick([1..k.n -> Pool(k)]) : \E a \in Pick(BOOLEAN), b \in Pick(BOOLEAN) :
              line' = [first |-> IF b THEN "dup" ELSE "", k |-> k, ts |-> WellFormed(k, f), after |-> a]
         /\ pc' = "typed" /\ edits' = 0
Mistype == /\ pc = "typed" /\ edits < MaxEdits
           /\ \E x \in Pick(Edited(line.k, line.ts)) : line' = [line EXCEPT !.ts = x]
           /\ edits' = edits + 1 /\ UNCHANGED pc
Enter == pc = "typed" /\ pc' = "done" /\ UNCHANGED <<line, edits>>
Next == Begin \/ Mistype \/ Enter
Spec == Init /\ [][Next]_vars

\* ---- what happens -----------------------------------------------------------------------------------------
Zeros(k) == [i \in 1..k.n |-> <<0,0>>]
Outcome == IF ~Accepted(line.k, line.ts) THEN [how |-> "terminated"]
           ELSE [how |-> "ok",
                 vals |-> [x \in {q.name : q \in Kinds} |-> IF x = line.k.name THEN Read(line.k, line.ts).v ELSE Zeros(CHOOSE q \in Kinds : q.name = x)],
                 par |-> IF line.after THEN 10 ELSE 0]

\* ---- properties ---------------------------------------------------------------------------------------------
\* exactly the well-formed values are accepted, and then every component is what was written at its place
ExactlyWellFormed == pc = "done" =>
  (Accepted(line.k, line.ts) <=> \E v \in [1..line.k.n -> Pool(line.k) \cup {<<8,0>>}] :
     line.ts = WellFormed(line.k, v))
Places == (pc = "done" /\ Accepted(line.k, line.ts)) => WellFormed(line.k, Read(line.k, line.ts).v) = line.ts
UneditedAccepted == (pc = "done" /\ edits = 0) => Accepted(line.k, line.ts)
Emit == pc = "done" => CSVWrite("%1$s", <<ToJson([in |-> line, exp |-> Outcome])>>, IOEnv.OUT)
=============================================================================
