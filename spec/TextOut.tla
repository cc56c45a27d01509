------------------------------ MODULE TextOut ------------------------------
(* Text output.  Two commenting streams and the data stream share one sink (as in trajectory::run).  Text is a sequence of
   characters; "N" stands for the newline.  A commenting stream passes its text through, putting "#" and a blank in front of
   the first character of each non-empty line.  It may hold text back until it is flushed; data is written only while
   nothing is held back. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Chunks,     \* pieces of text written to a commenting stream
          Data,       \* pieces of text written as data
          Streams, MaxOps, MaxLen
VARIABLES sink, held, within, raw, hin
vars == <<sink, held, within, raw, hin>>

Init == /\ sink = <<>> /\ held = [s \in Streams |-> <<>>] /\ within = [s \in Streams |-> FALSE] /\ raw = <<>> /\ hin = <<>>

RECURSIVE Mark(_, _)
Mark(txt, w) == IF txt = <<>> THEN <<>>
                ELSE IF txt[1] = "N" THEN <<"N">> \o Mark(Tail(txt), FALSE)
                ELSE (IF w THEN <<>> ELSE <<"#", " ">>) \o <<txt[1]>> \o Mark(Tail(txt), TRUE)
After(txt, w) == IF txt = <<>> THEN w ELSE txt[Len(txt)] # "N"

Write(s, c) == /\ Len(hin) < MaxOps
               /\ \A z \in Streams \ {s} : held[z] = <<>>       \* the order of text held back by different streams is not specified
               /\ held' = [held EXCEPT ![s] = @ \o Mark(c, within[s])]
               /\ within' = [within EXCEPT ![s] = After(c, @)]
               /\ raw' = raw \o c
               /\ hin' = Append(hin, [op |-> "w", s |-> s, txt |-> c]) /\ UNCHANGED sink
Flush(s) == /\ Len(hin) < MaxOps /\ held[s] # <<>>
            /\ sink' = sink \o held[s] /\ held' = [held EXCEPT ![s] = <<>>]
            /\ hin' = Append(hin, [op |-> "f", s |-> s]) /\ UNCHANGED <<within, raw>>
WriteData(c) == /\ Len(hin) < MaxOps /\ \A s \in Streams : held[s] = <<>>
                /\ sink' = sink \o c /\ hin' = Append(hin, [op |-> "d", txt |-> c]) /\ raw' = raw \o c /\ UNCHANGED <<held, within>>
Next == (\E s \in Streams, c \in Chunks : Write(s, c)) \/ (\E s \in Streams : Flush(s)) \/ (\E c \in Data : WriteData(c))
Spec == Init /\ [][Next]_vars

RECURSIVE Cat(_)
Cat(S) == IF S = {} THEN <<>> ELSE LET s == CHOOSE s \in S : TRUE IN held[s] \o Cat(S \ {s})
Final == sink \o Cat(Streams)
\* --- properties
RECURSIVE Split(_, _)
Split(txt, cur) == IF txt = <<>> THEN <<cur>> ELSE IF Head(txt) = "N" THEN <<cur>> \o Split(Tail(txt), <<>>) ELSE Split(Tail(txt), Append(cur, Head(txt)))
Lines(txt) == Split(txt, <<>>)
Single == \A i \in 1..Len(hin) : hin[i].op = "d" => FALSE
OneStream == Cardinality({hin[i].s : i \in {j \in 1..Len(hin) : hin[j].op # "d"}}) <= 1
\* with one stream and no data, the sink has the same lines, each non-empty one marked exactly once
MarkedOnce == (Single /\ OneStream) => LET a == Lines(raw) b == Lines(Final) IN
   Len(a) = Len(b) /\ \A i \in 1..Len(a) : b[i] = IF a[i] = <<>> THEN <<>> ELSE <<"#", " ">> \o a[i]
DataUntouched == (\A i \in 1..Len(hin) : hin[i].op = "d") => Final = raw
Emit == (Len(hin) = MaxOps) => CSVWrite("%1$s", <<ToJson([in |-> [ops |-> hin], exp |-> [txt |-> Final]])>>, IOEnv.OUT)
=============================================================================
