------------------------------ MODULE RunLoop ------------------------------
(* trajectory::run: sampling schedule, state files, continuation, automatic stopping.
   A history is a sequence of program runs over one output name (a trajectory file and a state file) kept on disk.
   Every run makes a fresh trajectory object.  Time is in integer ticks; the trajectory is the environment: when it is
   asked to step it moves by any of the step sizes in Steps (never beyond what is asked). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Configs,    \* possible run configurations
          Steps,      \* possible lengths of one adaptive step
          Vals,       \* tuples of values a stream may show (used if cfg.tab)
          MaxRuns, DiskOps

VARIABLES disk,       \* [traj |-> seq of events, st |-> seq of states]
          pc, cfg, tr, reach, cont, count, scount, saved, streamed,
          out,        \* events emitted by this run
          rec,        \* record kept by this run
          que,        \* autostop: [seen |-> any output yet, q |-> last values]
          target,     \* advance: where to
          hin, hexp
vars == <<disk, pc, cfg, tr, reach, cont, count, scount, saved, streamed, out, rec, que, target, hin, hexp>>
run == <<cfg, tr, reach, cont, count, scount, saved, streamed, out, rec, que, target>>

Abs(x) == IF x < 0 THEN -x ELSE x
Min(a,b) == IF a < b THEN a ELSE b
Last(s) == s[Len(s)]
NoCfg == [kind |-> 0]
Mark(m) == [e |-> m]

Init == /\ disk = [traj |-> <<>>, st |-> <<>>] /\ pc = "idle" /\ cfg = NoCfg /\ tr = [t |-> 0, did |-> 0, x |-> 0]
        /\ reach = 0 /\ cont = FALSE /\ count = 0 /\ scount = 0 /\ saved = FALSE /\ streamed = FALSE /\ out = <<>> /\ rec = <<>>
        /\ que = [seen |-> FALSE, q |-> <<>>] /\ target = 0 /\ hin = <<>> /\ hexp = <<>>

Report(how, o, r, d) == Append(hexp, [how |-> how, out |-> o, rec |-> r, st |-> d.st, lines |-> Len(d.traj)])

\* ---- starting a run -----------------------------------------------------------------------------------
Start(c) ==
  LET continuing == c.file /\ disk.traj # <<>>
      src == IF continuing THEN disk.st ELSE c.init
      refused == \/ c.mode # "dc" /\ c.D = 0   \* no sampling interval
                 \/ continuing /\ src = <<>>
                 \/ \E i \in 1..Len(src) : src[i].k # c.kind /\ src[i].k # 0
      fresh == [t |-> 0, did |-> 0, x |-> 0]
      tr0 == IF src = <<>> THEN fresh
             ELSE IF Last(src).k = 0 THEN [fresh EXCEPT !.x = Last(src).x]
             ELSE [t |-> Last(src).t, did |-> Last(src).did, x |-> Last(src).x]
      tend == IF c.mode = "NDt" THEN tr0.t + c.n * c.D ELSE c.T
      \* the introduction names the command line (on a fresh start), where the run goes and how often it samples
      head == IF ~c.info THEN <<>>
              ELSE IF continuing THEN <<[e |-> "C", from |-> tr0.t, to |-> tend]>>
              ELSE <<[e |-> "H", cmd |-> c.cmd, to |-> tend, every |-> IF c.mode = "dc" THEN c.n ELSE c.D]>>
  IN
  /\ pc = "idle" /\ Len(hin) < MaxRuns
  /\ hin' = Append(hin, [op |-> "run", c |-> c, steps |-> <<>>, vals |-> <<>>])
  /\ IF refused \/ (tend # 0 /\ tend <= tr0.t)
     THEN \* refused before touching anything, or nothing to do
       /\ hexp' = Report(IF refused THEN "refused" ELSE "ok", <<>>, <<>>, disk)
       /\ UNCHANGED <<disk, pc, run>>
     ELSE
       /\ pc' = IF tend = 0 THEN "single" ELSE "loop"
       /\ cfg' = c /\ tr' = tr0 /\ reach' = tend /\ cont' = continuing /\ count' = 0 /\ scount' = 0 /\ saved' = FALSE /\ streamed' = FALSE
       /\ out' = head /\ rec' = <<>> /\ que' = [seen |-> FALSE, q |-> <<>>] /\ target' = 0
       /\ UNCHANGED <<disk, hexp>>

\* ---- emitting a line ----------------------------------------------------------------------------------
Values(v) == IF cfg.tab THEN v ELSE <<2 * tr.t + 1, tr.x>>
Line(v) == <<tr.t, tr.did>> \o Values(v)
Ev(v) == [e |-> "L", v |-> Line(v)]
Choices == IF cfg.tab THEN Vals ELSE {<<0>>}
WithVals(v) == IF cfg.tab THEN [hin EXCEPT ![Len(hin)] = [@ EXCEPT !.vals = Append(@, <<tr.t>> \o v)]] ELSE hin
State == [k |-> cfg.kind, t |-> tr.t, did |-> tr.did, x |-> tr.x]

\* ---- automatic stopping --------------------------------------------------------------------------------
Clip(v) == [i \in 1..Len(v) |-> IF Abs(v[i]) < cfg.epsAbs THEN cfg.epsAbs ELSE v[i]]
SumAt(q, i) == LET f[k \in 0..Len(q)] == IF k = 0 THEN 0 ELSE f[k-1] + q[k][i] IN f[Len(q)]
Lhs(v, i) == cfg.eps[2] * Abs(SumAt(que.q, i) - cfg.ar * v[i])
Rhs(v, i) == cfg.eps[1] * (Abs(SumAt(que.q, i)) + cfg.ar * Abs(v[i]))
Decides == cfg.ar > 0 /\ Len(que.q) = cfg.ar
Settled(v) == \A i \in 1..Len(v) : Lhs(v, i) < Rhs(v, i)
Borderline(v) == \E i \in 1..Len(v) : Lhs(v, i) = Rhs(v, i)
QueAfter(v) == IF cfg.ar = 0 THEN que
               ELSE IF ~que.seen THEN [que EXCEPT !.seen = TRUE]
               ELSE [que EXCEPT !.q = Append(IF Len(@) = cfg.ar THEN Tail(@) ELSE @, v)]

\* ---- one point of the loop (or its end) ----------------------------------------------------------------
Going == IF cfg.mode = "NDt" THEN count <= cfg.n ELSE tr.t < cfg.T
Due == count = 0 \/ cfg.mode # "dc" \/ count % cfg.n = 0
SaveDue == cfg.sdf > 0 /\ scount % cfg.sdf = 0 /\ (scount > 0 \/ (cfg.first /\ ~cont))
Saves(s) == IF cfg.file THEN [disk EXCEPT !.st = Append(@, s)] ELSE disk

Move == \* the next piece of evolution
  IF count = 0 THEN pc' = "point" /\ UNCHANGED <<target, saved, streamed>>
  ELSE /\ pc' = "move"
       /\ target' = IF cfg.mode = "dc" THEN cfg.T ELSE IF cfg.mode = "Dt" THEN tr.t + Min(cfg.D, cfg.T - tr.t) ELSE tr.t + cfg.D
       /\ saved' = FALSE /\ streamed' = FALSE
LoopHead == /\ pc = "loop"
            /\ IF Going THEN Move ELSE pc' = "end" /\ UNCHANGED <<target, saved, streamed>>
            /\ UNCHANGED <<disk, cfg, tr, reach, cont, count, scount, out, rec, que, hin, hexp>>

\* one step of the trajectory towards target; in dc mode exactly one step, otherwise until the target is reached
StepBy(s) == /\ tr' = [t |-> tr.t + s, did |-> s, x |-> tr.x + 1]
             /\ pc' = IF cfg.mode = "dc" \/ tr.t + s = target THEN "point" ELSE "move"
MoveStep == /\ pc = "move"
            /\ IF cfg.ad
               THEN \E s \in Steps : /\ s <= target - tr.t \/ s = CHOOSE z \in Steps : \A y \in Steps : z >= y
                                     /\ StepBy(Min(s, target - tr.t))
                                     /\ hin' = [hin EXCEPT ![Len(hin)] = [@ EXCEPT !.steps = Append(@, s)]]
               ELSE StepBy(target - tr.t) /\ UNCHANGED hin
            /\ UNCHANGED <<disk, cfg, reach, cont, count, scount, saved, streamed, out, rec, que, target, hexp>>

Point ==
  /\ pc = "point"
  /\ IF ~Due THEN /\ pc' = "loop" /\ count' = count + 1 /\ UNCHANGED <<disk, scount, saved, streamed, out, rec, que, hin>>
     ELSE /\ disk' = IF SaveDue THEN Saves(State) ELSE disk
          /\ saved' = (saved \/ SaveDue)
          /\ scount' = scount + 1
          /\ count' = count + 1
          /\ IF count = 0 /\ cont
             THEN pc' = "loop" /\ UNCHANGED <<streamed, out, rec, que, hin>>
             ELSE \E v \in Choices :
                    LET c == Clip(Values(v)) stop == Decides /\ Settled(c) IN
                    /\ ~(Decides /\ Borderline(c))
                    /\ streamed' = TRUE
                    /\ out' = IF stop THEN out \o <<Ev(v), Mark("S")>> ELSE Append(out, Ev(v))
                    /\ rec' = IF cfg.rec THEN Append(rec, Line(v)) ELSE rec
                    /\ que' = QueAfter(c)
                    /\ hin' = WithVals(v)
                    /\ pc' = IF stop THEN "end" ELSE "loop"
  /\ UNCHANGED <<cfg, tr, reach, cont, target, hexp>>

Finish(o, r, d) == /\ pc' = "idle"
                   /\ disk' = [d EXCEPT !.traj = IF cfg.file THEN @ \o o ELSE @]
                   /\ hexp' = Report("ok", IF cfg.quiet /\ ~cfg.file THEN <<>> ELSE o, r, disk')
                   /\ UNCHANGED <<run>>
End == /\ pc = "end"
       /\ \E v \in (IF streamed THEN {<<0>>} ELSE Choices) :
            /\ hin' = IF streamed THEN hin ELSE WithVals(v)
            /\ Finish(IF streamed THEN Append(out, Mark("E")) ELSE out \o <<Ev(v), Mark("E")>>,
                      IF streamed \/ ~cfg.rec THEN rec ELSE Append(rec, Line(v)),
                      IF saved THEN disk ELSE Saves(State))
Single == /\ pc = "single"
          /\ \E v \in Choices : hin' = WithVals(v) /\ Finish(Append(out, Ev(v)), IF cfg.rec THEN Append(rec, Line(v)) ELSE rec, disk)

DiskOp == /\ pc = "idle" /\ Len(hin) < MaxRuns /\ Len(hin) > 0
          /\ \E o \in DiskOps :
               /\ o = "rmstate" => disk.st # <<>>
               /\ o = "rmtraj" => disk.traj # <<>>
               /\ disk' = IF o = "rmstate" THEN [disk EXCEPT !.st = <<>>] ELSE [disk EXCEPT !.traj = <<>>]
               /\ hin' = Append(hin, [op |-> o]) /\ hexp' = Report("ok", <<>>, <<>>, disk')
          /\ UNCHANGED <<pc, run>>

StartAny == \E c \in Configs : Start(c)
Next == StartAny \/ LoopHead \/ MoveStep \/ Point \/ End \/ Single \/ DiskOp
Spec == Init /\ [][Next]_vars

\* ---- properties ----------------------------------------------------------------------------------------
IsLine(e) == e.e = "L"
LinesOf(s) == SelectSeq(s, IsLine)
Increasing(s) == \A i, j \in 1..Len(s) : i < j => s[i].v[1] < s[j].v[1]
NeverPast == pc \in {"loop", "move", "point", "end"} => tr.t <= reach
LinesInOrder == Increasing(LinesOf(out))
\* a completed Dt run shows exactly the grid points and the end
ExpectedGrid(c, t0, first) == {t0 + k * c.D : k \in (IF first THEN 0 ELSE 1)..100} \cap 0..(c.T - 1)
GridExact == (pc = "end" /\ cfg.mode = "Dt" /\ ~(Len(out) > 0 /\ Last(out).e = "S")) =>
  LET L == LinesOf(out) ts == {L[i].v[1] : i \in 1..Len(L)} t0 == IF cont THEN 0 ELSE L[1].v[1] IN
  cont \/ cfg.fine = 1 \/ ts = ExpectedGrid(cfg, t0, TRUE) \cup {cfg.T}
\* the same where the grid has too many ticks to list: no two consecutive lines farther apart than the sampling interval, all but the last interval equal to it
GridFine == (pc = "end" /\ cfg.mode # "dc" /\ ~(Len(out) > 0 /\ Last(out).e = "S")) =>
  LET L == LinesOf(out) IN \A i \in 1..(Len(L)-1) : IF i < Len(L)-1 \/ cfg.mode = "NDt" THEN L[i+1].v[1] - L[i].v[1] = cfg.D ELSE L[i+1].v[1] - L[i].v[1] \in 1..cfg.D
EndsAtReach == (pc = "end" /\ ~(Len(out) > 0 /\ Last(out).e = "S")) => tr.t = reach
StatesIncreasing == \A i \in 1..Len(hexp) : "rmtraj" \notin DiskOps =>
  \A a, b \in 1..Len(hexp[i].st) : a < b => hexp[i].st[a].t < hexp[i].st[b].t
FinalSaved == \A i \in 1..Len(hexp) : (hin[i].op = "run" /\ hexp[i].how = "ok" /\ hin[i].c.file /\ Len(hexp[i].out) > 0 /\ Last(hexp[i].out).e = "E") =>
  LET L == LinesOf(hexp[i].out) IN Last(hexp[i].st).t = Last(L).v[1]
RefusedUntouched == \A i \in 2..Len(hexp) : hexp[i].how = "refused" => hexp[i].st = hexp[i-1].st /\ hexp[i].lines = hexp[i-1].lines
HeaderOnce == "rmtraj" \notin DiskOps => Cardinality({i \in 1..Len(hexp) : hexp[i].out # <<>> /\ hexp[i].out[1].e = "H" /\ hin[i].c.file}) <= 1
Complete == pc = "idle" /\ Len(hin) = MaxRuns
Emit == Complete => CSVWrite("%1$s", <<ToJson([in |-> hin, exp |-> hexp])>>, IOEnv.OUT)
=============================================================================
