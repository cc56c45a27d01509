------------------------------ MODULE CmdLine ------------------------------
(* parameters::Table and parameters::update.  Phase 1: registrations (a name can be registered once).  Phase 2: one or two
   command lines, word by word.  A word carries its text, the name it denotes after the prefix ("" if it lacks the prefix),
   and what it means as a number; the machine consumes a name, then (unless it is a switch) a value. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS RegOps,    \* possible registrations [name, type, def]
          MaxReg, MaxWords, MaxLines,
          Words,     \* possible words [txt, nm, pre, i, d, z]
          Lively,    \* TRUE: only words which do not end the program
          Fixed      \* TRUE: start from the fixed full table instead of enumerating registrations
VARIABLES table,     \* seq of [name, type]
          val,       \* name -> value
          phase,     \* "reg", "parse", "dead"
          want,      \* <<>> or <<name>> waiting for its value
          words, nlines, hin, hexp
vars == <<table, val, phase, want, words, nlines, hin, hexp>>

Names == {table[i].name : i \in 1..Len(table)}
TypeOf(n) == LET i == CHOOSE i \in 1..Len(table) : table[i].name = n IN table[i].type
Snapshot == [i \in 1..Len(table) |-> IF table[i].type = "title" THEN 0 ELSE IF table[i].type = "neg" THEN 0 ELSE val[table[i].name]]

\* --- registration ---
Entries(o) == IF o.type = "bool" THEN <<[name |-> o.name, type |-> "bool"], [name |-> "no_" \o o.name, type |-> "neg", of |-> o.name]>>
              ELSE <<[name |-> o.name, type |-> o.type]>>
Clash(o) == o.name \in Names
Extend(o) == /\ table' = table \o Entries(o)
             /\ val' = IF o.type = "title" THEN val ELSE [n \in DOMAIN val \cup {o.name} |-> IF n = o.name THEN o.def ELSE val[n]]
Reg(o) == /\ phase = "reg" /\ Len(hin) < MaxReg
          /\ (o.type = "bool" /\ ~Clash(o)) => ("no_" \o o.name) \notin Names   \* what is left behind by a half-done registration is not specified
          /\ hin' = Append(hin, [op |-> "add", name |-> o.name, type |-> o.type, def |-> o.def])
          /\ IF Clash(o) THEN UNCHANGED <<table, val>> ELSE Extend(o)
          /\ hexp' = Append(hexp, [added |-> ~Clash(o), known |-> TRUE, unknown |-> FALSE])
          /\ UNCHANGED <<phase, want, words, nlines>>
DoneReg == /\ phase = "reg" /\ Len(hin) > 0 /\ phase' = "parse" /\ UNCHANGED <<table, val, want, words, nlines, hin, hexp>>

\* --- one word ---
RECURSIVE Join(_)
Join(ws) == IF ws = <<>> THEN "" ELSE " " \o ws[1] \o Join(Tail(ws))
Meaning(ty, w) == CASE ty = "int" -> w.i [] ty = "zero" -> w.i [] ty = "long" -> w.i [] ty = "double" -> w.d [] ty = "complex" -> w.z [] ty = "string" -> <<w.txt>> [] OTHER -> <<>>
EndLine(how) == Append(hexp, IF how = "ok" THEN [how |-> how, vals |-> Snapshot', cl |-> "prog" \o Join(words')] ELSE [how |-> how])
Word(w) ==
  /\ phase = "parse" /\ Len(words) < MaxWords /\ nlines < MaxLines
  /\ words' = Append(words, w.txt)
  /\ UNCHANGED <<table, nlines, hin, hexp>>
  /\ IF want # <<>>
     THEN LET m == Meaning(TypeOf(want[1]), w) IN
          /\ want' = <<>>
          /\ IF m = <<>> THEN phase' = "dead" /\ UNCHANGED val
             ELSE phase' = phase /\ val' = [val EXCEPT ![want[1]] = m[1]]
     ELSE IF ~w.pre \/ w.nm \notin Names \/ (w.nm \in Names /\ TypeOf(w.nm) = "title")
     THEN phase' = "dead" /\ UNCHANGED <<val, want>>
     ELSE CASE TypeOf(w.nm) = "bool" -> val' = [val EXCEPT ![w.nm] = TRUE] /\ UNCHANGED <<phase, want>>
            [] TypeOf(w.nm) = "neg"  -> LET i == CHOOSE i \in 1..Len(table) : table[i].name = w.nm IN
                                        val' = [val EXCEPT ![table[i].of] = FALSE] /\ UNCHANGED <<phase, want>>
            [] OTHER -> want' = <<w.nm>> /\ UNCHANGED <<phase, val>>
  /\ Lively => phase' # "dead"
Close == \* the command line ends here
  /\ Lively => Len(words) >= MaxWords - 1
  /\ phase \in {"parse", "dead"} /\ nlines < MaxLines
  /\ hin' = Append(hin, [op |-> "update", words |-> words])
  /\ LET bad == phase = "dead" \/ want # <<>> IN
     /\ phase' = IF bad THEN "dead" ELSE "parse"
     /\ hexp' = Append(hexp, IF bad THEN [how |-> "terminated"] ELSE [how |-> "ok", vals |-> Snapshot, cl |-> "prog" \o Join(words)])
     /\ nlines' = IF bad THEN MaxLines ELSE nlines + 1
  /\ words' = <<>> /\ want' = <<>>
  /\ UNCHANGED <<table, val>>
RECURSIVE Full(_, _)
FullTable == LET f[k \in 0..Len(Fixed)] == IF k = 0 THEN <<>> ELSE f[k-1] \o Entries(Fixed[k]) IN f[Len(Fixed)]
Full(k, acc) == IF k > Len(Fixed) THEN acc ELSE Full(k+1, Append(acc, [op |-> "add", name |-> Fixed[k].name, type |-> Fixed[k].type, def |-> Fixed[k].def]))

Init == /\ want = <<>> /\ words = <<>> /\ nlines = 0
        /\ IF Fixed = <<>> THEN table = <<>> /\ val = [n \in {} |-> 0] /\ phase = "reg" /\ hin = <<>> /\ hexp = <<>>
           ELSE /\ table = FullTable /\ phase = "parse"
                /\ val = [n \in {Fixed[k].name : k \in {k \in 1..Len(Fixed) : Fixed[k].type # "title"}} |-> LET k == CHOOSE k \in 1..Len(Fixed) : Fixed[k].name = n IN Fixed[k].def]
                /\ hin = Full(1, <<>>) /\ hexp = [k \in 1..Len(Fixed) |-> [added |-> TRUE, known |-> TRUE, unknown |-> FALSE]]
Next == (\E o \in RegOps : Reg(o)) \/ DoneReg \/ (\E w \in Words : Word(w)) \/ Close
Spec == Init /\ [][Next]_vars

NamesUnique == Cardinality(Names) = Len(table)
Total == phase = "parse" => \A n \in Names : TypeOf(n) \in {"title", "neg"} \/ n \in DOMAIN val
OnlyMentioned == \* what is never mentioned keeps its value (single command line, fixed table)
  (Fixed # <<>> /\ nlines = 0) => \A k \in 1..Len(Fixed) : (Fixed[k].type # "title" /\ \A j \in 1..Len(words) : words[j] \notin {"--" \o Fixed[k].name, "--no_" \o Fixed[k].name})
     => val[Fixed[k].name] = Fixed[k].def
Done == nlines = MaxLines
Emit == Done => CSVWrite("%1$s", <<ToJson([in |-> hin, exp |-> hexp])>>, IOEnv.OUT)
=============================================================================
