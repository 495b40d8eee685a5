------------------------------- MODULE Logging -------------------------------
(***************************************************************************)
(* Event logging.  A context that has a logger keeps, per logger, the tick  *)
(* of its own clock; an event is recorded if its type is enabled by the     *)
(* context's filter, with the context, the type, the data and that tick.    *)
(* The crate itself logs the beginning and end of channel operations        *)
(* (SendEvent, ReceiverEvent), waits for other clocks (ContextViewEvent)    *)
(* and the end of clocks (TimeEvent).                                       *)
(*                                                                         *)
(* MODE = "laws": contexts with all filters log and advance in every        *)
(* interleaving; what is recorded has the stated properties.                *)
(* MODE = "gen": all programs within bounds, for the implementation to run. *)
(* MODE = "judge": recorded executions are followed entry by entry.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Mode == IOEnv.MODE
BigUniverse == IOEnv.BIG = "1"
Runs == IF Mode = "judge" THEN ndJsonDeserialize(IOEnv.RUNS) ELSE <<>>

VARIABLES
  tid,    \* the execution that is checked
  at,     \* entries read so far
  pos,    \* per context: expected entries that were seen
  tick,   \* per logging thread of control: the last tick
  open,   \* per logging thread of control: the channel operation that has begun
  ended,  \* per logging thread of control: ends of clocks that were seen
  err,
  ctx, log  \* the small model: contexts, and the log
vars == <<tid, at, pos, tick, open, ended, err, ctx, log>>

None == "none"
EnabledBy(f, name) == None \notin f /\ ("*" \in f \/ name \in f)
Registered == {"EvA", "EvB", "EvC", "SendEvent", "ReceiverEvent", "ContextViewEvent", "TimeEvent"}

------------------------------------------------------------------------------
(* The small model *)
Types == {"EvA", "EvB"}
Filters == {{None}, {"*"}, {}, {"EvA"}, {"EvB"}, {"EvA", "EvB"}}
Clients == 1 .. 2
Most == IF BigUniverse THEN 3 ELSE 2
MLog(c) == /\ Len(ctx[c].did) < Most
           /\ \E t \in Types :
                /\ ctx' = [ctx EXCEPT ![c].did = Append(@, <<t, ctx[c].clk>>)]
                /\ log' = IF EnabledBy(ctx[c].f, t) THEN Append(log, <<c, t, ctx[c].clk>>) ELSE log
MAdvance(c) == ctx[c].clk < 2 /\ ctx' = [ctx EXCEPT ![c].clk = @ + 1] /\ UNCHANGED log
Model == \E c \in Clients : MLog(c) \/ MAdvance(c)

Of(c) == SelectSeq(log, LAMBDA e : e[1] = c)
ExactlyEnabled ==
  Mode = "laws" => \A c \in Clients :
    LET W == SelectSeq(ctx[c].did, LAMBDA d : EnabledBy(ctx[c].f, d[1])) IN
    Of(c) = [i \in DOMAIN W |-> <<c, W[i][1], W[i][2]>>]
TicksMonotone ==
  Mode = "laws" => \A c \in Clients : \A i, j \in DOMAIN Of(c) : i <= j => Of(c)[i][3] <= Of(c)[j][3]

------------------------------------------------------------------------------
(* Programs for the implementation *)
LogOp(ty, cb) == [Log |-> [ty |-> ty, n |-> 7 + ty, cb |-> cb]]
IncOp == [Inc |-> [n |-> 2]]
OpSet == {LogOp(0, FALSE), LogOp(0, TRUE), LogOp(1, FALSE), LogOp(1, TRUE), IncOp, [Cleanup |-> <<>>]}
Script(ops) == [kind |-> [Script |-> [ops |-> ops, flavor |-> 0]]]
Some(z) == {<<None>>, <<"*">>, <<>>, <<"EvA">>, <<"EvB">>, <<"EvA", "EvB">>, <<"TimeEvent">>, <<"EvC", "Nope">>}
Checks == << <<>>, <<"EvA">>, <<"Nope">>, <<"EvA", "Nope">>, <<"EvA", "EvB", "EvC", "SendEvent", "ReceiverEvent",
             "ContextViewEvent", "TimeEvent">>, <<"evA">>, <<"EvD", "Ev", "">> >>
Prog1(ops, f) == [chans |-> <<>>, ctxs |-> <<Script(ops)>>, order |-> <<0>>, groups |-> <<>>, tag |-> "log",
                  filters |-> <<f>>, checks |-> Checks]
Prog2(a, b, f, g) == [chans |-> <<>>, ctxs |-> <<Script(a), Script(b)>>, order |-> <<1, 0>>, groups |-> <<>>, tag |-> "log",
                      filters |-> <<f, g>>, checks |-> <<>>]
SeqsUpTo(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Progs(z) ==
  {Prog1(o, f) : o \in {s \in SeqsUpTo(OpSet, IF BigUniverse THEN 4 ELSE 3) :
                           \* a clock that has ended does not move
                           \A i, j \in DOMAIN s : i < j /\ "Cleanup" \in DOMAIN s[i] => "Inc" \notin DOMAIN s[j]},
                 f \in IF BigUniverse THEN Some(0) ELSE {<<None>>, <<"*">>, <<"EvA">>, <<"EvB", "TimeEvent">>, <<"EvC", "Nope">>}}
  \cup {Prog2(a, b, f, g) : a \in [1 .. 2 -> {LogOp(0, FALSE), LogOp(1, TRUE), IncOp}],
                            b \in {<<LogOp(1, FALSE), IncOp, LogOp(0, FALSE)>>},
                            f \in {<<None>>, <<"*">>, <<"EvA">>}, g \in {<<None>>, <<"*">>, <<"EvA">>}}

------------------------------------------------------------------------------
(* Following an execution *)
P == Runs[tid]
E == P.x.entries
Procs == DOMAIN P.procs
IsScript(p) == P.procs[p].k = "script"
Filter(p) == Range(P.filters[P.procs[p].top])
On(p, name) == EnabledBy(Filter(p), name)

TypeName(v) == CASE v = 0 -> "EvA" [] v = 1 -> "EvB" [] OTHER -> "EvC"
Recs(p) == P.logs[p]
Ops(p) == {Recs(p)[i].op : i \in DOMAIN Recs(p)}
\* operations that look at channels any number of times
Looks(p) == \E o \in Ops(p) : o \in {"ev1", "evall", "evany", "sel"}
\* the clock is infinite after this record
InfAt(p, i) == \E j \in 1 .. (i - 1) : Recs(p)[j].op = "cleanup"
Mark(name, what, n, c, t, inf) == <<name, what, n, c, t, inf>>
Marks(p, i) ==
  LET r == Recs(p)[i] f == InfAt(p, i) IN
  CASE r.op = "log" -> IF On(p, TypeName(r.v)) THEN <<Mark(TypeName(r.v), "", r.n, 0, r.c0, f)>> ELSE <<>>
    [] r.op = "enq" /\ On(p, "SendEvent") ->
         <<Mark("SendEvent", "EnqueueStart", -1, r.ch, r.c0, f), Mark("SendEvent", "EnqueueFinish", -1, r.ch, r.c1, f)>>
    [] r.op = "deq" /\ On(p, "ReceiverEvent") ->
         <<Mark("ReceiverEvent", "DequeueStart", -1, r.ch, r.c0, f), Mark("ReceiverEvent", "DequeueFinish", -1, r.ch, r.c1, f)>>
    [] r.op = "sel" /\ r.res = "ok" /\ On(p, "ReceiverEvent") ->
         <<Mark("ReceiverEvent", "DequeueStart", -1, r.ch, r.c1, f), Mark("ReceiverEvent", "DequeueFinish", -1, r.ch, r.c1, f)>>
    [] r.op = "pkn" /\ On(p, "ReceiverEvent") ->
         <<Mark("ReceiverEvent", "PeekNextStart", -1, r.ch, r.c0, f), Mark("ReceiverEvent", "PeekNextFinish", -1, r.ch, r.c1, f)>>
    [] r.op = "pk" /\ On(p, "ReceiverEvent") /\ ~Looks(p) -> <<Mark("ReceiverEvent", "Peek", -1, r.ch, r.c0, f)>>
    [] OTHER -> <<>>
RECURSIVE MarksTo(_, _)
MarksTo(p, i) == IF i = 0 THEN <<>> ELSE MarksTo(p, i - 1) \o Marks(p, i)
Expected(p) == IF IsScript(p) THEN MarksTo(p, Len(Recs(p))) ELSE <<>>
\* computed once per execution
ExpectedAll == [p \in Procs |-> Expected(p)]

Codes == {E[i][1] : i \in DOMAIN E}
\* the process of the specification that the code of a context stands for; parts of a PMU stand for either pipeline
ProcOf(code) == IF code >= 1000 THEN code \div 1000 ELSE code
Owns(code, p) == IF code >= 1000 THEN P.procs[p].own = ProcOf(code) /\ P.procs[p].k \in {"pmur", "pmuw"}
                 ELSE p = code
Owner(e) == IF e[5] = 0 THEN 0 ELSE IF e[2] = "SendEvent" THEN P.chans[e[5]].snd ELSE P.chans[e[5]].rcv
Begin == {"EnqueueStart", "DequeueStart", "PeekNextStart"}
EndOf(w) == CASE w = "EnqueueStart" -> "EnqueueFinish" [] w = "DequeueStart" -> "DequeueFinish" [] OTHER -> "PeekNextFinish"
Ends == {"EnqueueFinish", "DequeueFinish", "PeekNextFinish"}
UserTypes == {"EvA", "EvB", "EvC"}

\* the rule that entry e breaks
Rule(e) ==
  LET code == e[1] p == ProcOf(code) IN
  IF code = 0 \/ p > P.nctx THEN "log-context"
  ELSE IF code < 1000 /\ P.procs[p].k = "pmur" THEN "log-context"
  ELSE IF None \in Filter(p) THEN "log-none"
  ELSE IF e[2] \notin Registered THEN "log-type"
  ELSE IF ~On(p, e[2]) THEN "log-disabled"
  ELSE IF e[2] \in UserTypes \/ (IsScript(p) /\ e[2] \in {"SendEvent", "ReceiverEvent"} /\ ~(e[3] = "Peek" /\ Looks(p)))
       THEN IF ~IsScript(p) \/ pos[p] = Len(log[p]) THEN "log-extra"
            ELSE LET w == log[p][pos[p] + 1] g == SubSeq(e, 2, 7) IN
                 IF w = g THEN ""
                 ELSE IF SubSeq(w, 1, 4) = SubSeq(g, 1, 4) THEN "log-tick"
                 ELSE "log-order"
  ELSE IF e[2] \in {"SendEvent", "ReceiverEvent"} /\ ~(Owner(e) # 0 /\ Owns(code, Owner(e))) THEN "log-owner"
  ELSE IF e[3] \in Begin /\ open[code] # <<>> THEN "log-nested"
  ELSE IF e[3] \in Ends /\ open[code] = <<>> THEN "log-nested"
  ELSE IF e[3] \in Ends /\ open[code] # <<EndOf(open[code][1]), open[code][2]>> /\ <<EndOf(open[code][1]), open[code][2]>> # <<e[3], e[5]>>
       THEN "log-nested"
  ELSE IF e[6] < tick[code] THEN "log-tick"
  ELSE IF IsScript(p) /\ pos[p] < Len(log[p]) /\ ~e[7] /\ ~log[p][pos[p] + 1][6] /\ e[6] > log[p][pos[p] + 1][5] THEN "log-tick"
  ELSE IF e[2] = "TimeEvent" /\ e[4] # e[6] THEN "log-end-time"
  ELSE ""
Read ==
  LET e == E[at + 1] p == ProcOf(e[1]) IN
  /\ at' = at + 1
  /\ err' = Rule(e)
  /\ IF err' # ""
     THEN PrintT(<<"REJECT", tid, err', p, at + 1>>) /\ UNCHANGED <<pos, tick, open, ended>>
     ELSE /\ pos' = IF IsScript(p) /\ (e[2] \in UserTypes \/ (e[2] \in {"SendEvent", "ReceiverEvent"} /\ ~(e[3] = "Peek" /\ Looks(p))))
                    THEN [pos EXCEPT ![p] = @ + 1] ELSE pos
          /\ tick' = [tick EXCEPT ![e[1]] = e[6]]
          /\ open' = [open EXCEPT ![e[1]] = IF e[3] \in Begin THEN <<e[3], e[5]>> ELSE IF e[3] \in Ends THEN <<>> ELSE @]
          /\ ended' = [ended EXCEPT ![e[1]] = IF e[2] = "TimeEvent" THEN @ + 1 ELSE @]
  /\ UNCHANGED <<tid, ctx, log>>

\* at the end
Calls(p) == \E i \in DOMAIN Recs(p) :
  LET r == Recs(p)[i] IN r.op = "log" /\ r.t # (IF r.chs[1] = 1 /\ On(p, TypeName(r.v)) THEN 1 ELSE 0)
Errors(p) == \E i \in DOMAIN Recs(p) : Recs(p)[i].op = "log" /\ Recs(p)[i].res # "ok"
Scripts == {p \in Procs : IsScript(p)}
PmuCodes == {c \in Codes : c >= 1000}
\* each part of a PMU logs as one context of its own
PartsMixed ==
  LET S == {i \in DOMAIN E : E[i][1] >= 1000 /\ Owner(E[i]) # 0} IN
  \E i, j \in S : (E[i][1] = E[j][1]) # (Owner(E[i]) = Owner(E[j]))
Got(c) == Cardinality({i \in DOMAIN Recs(P.chans[c].rcv) :
                         Recs(P.chans[c].rcv)[i].op = "deq" /\ Recs(P.chans[c].rcv)[i].ch = c /\ Recs(P.chans[c].rcv)[i].res = "ok"})
SentLogged(c) == Cardinality({i \in DOMAIN E : E[i][3] = "EnqueueFinish" /\ E[i][5] = c})
Unsent == \E c \in DOMAIN P.chans :
  /\ ~P.chans[c].void /\ IsScript(P.chans[c].rcv) /\ ~IsScript(P.chans[c].snd)
  /\ On(P.chans[c].snd, "SendEvent") /\ SentLogged(c) < Got(c)
\* each clock ends once, and once more if the context ends it early
EndsOf(p) == 1 + (IF IsScript(p) THEN Cardinality({i \in DOMAIN Recs(p) : Recs(p)[i].op = "cleanup"}) ELSE 0)
NoEnd == \E p \in Procs :
  On(p, "TimeEvent") /\ LET S == {c \in Codes : Owns(c, p)} IN S = {} \/ \E c \in S : ended[c] # EndsOf(p)
CheckWrong ==
  \E i \in DOMAIN P.x.checks :
    LET k == P.x.checks[i] U == Range(k.names) \ Registered IN k.ok # (U = {}) \/ Range(k.bad) # U \/ Len(k.bad) # Cardinality(U)

FinalRule ==
  IF \E p \in Procs : pos[p] < Len(log[p]) THEN "log-missing"
  ELSE IF \E c \in Codes : open[c] # <<>> THEN "log-unfinished"
  ELSE IF \E p \in Scripts : Calls(p) THEN "log-callback"
  ELSE IF \E p \in Scripts : Errors(p) THEN "log-error"
  ELSE IF PartsMixed THEN "log-parts"
  ELSE IF Unsent THEN "log-unsent"
  ELSE IF NoEnd THEN "log-end"
  ELSE IF CheckWrong THEN "log-check"
  ELSE ""
End ==
  /\ err' = IF P.out # "done" \/ FinalRule = "" THEN "accept" ELSE FinalRule
  /\ UNCHANGED <<tid, at, pos, tick, open, ended, ctx, log>>
  /\ IF err' = "accept" THEN PrintT(<<"ACCEPT", tid>>)
     ELSE LET S == IF err' = "log-missing" THEN {p \in Procs : pos[p] < Len(log[p])} ELSE {} IN
          PrintT(<<"REJECT", tid, err', IF S = {} THEN 0 ELSE CHOOSE p \in S : TRUE, 0>>)

Init ==
  /\ tid \in IF Mode = "judge" THEN 1 .. Len(Runs) ELSE {0}
  /\ at = 0 /\ err = ""
  /\ IF Mode = "judge"
     THEN /\ pos = [p \in Procs |-> 0]
          /\ tick = [c \in Codes |-> 0] /\ open = [c \in Codes |-> <<>>] /\ ended = [c \in Codes |-> 0]
          /\ ctx = <<>>
          \* (what each context is expected to log)
          /\ log = IF P.out = "done" THEN ExpectedAll ELSE <<>>
     ELSE /\ pos = <<>> /\ tick = <<>> /\ open = <<>> /\ ended = <<>>
          /\ ctx \in [Clients -> {[f |-> f, clk |-> 0, did |-> <<>>] : f \in Filters}]
          /\ log = <<>>
Next ==
  IF Mode = "judge"
  THEN /\ err = ""
       /\ IF P.out = "done" /\ at < Len(E) THEN Read ELSE End
  ELSE IF Mode = "laws" THEN Model /\ UNCHANGED <<tid, at, pos, tick, open, ended, err>>
  ELSE FALSE
Spec == Init /\ [][Next]_vars
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUT \o "-log.ndjson", SetToSeq(Progs(0)))
==============================================================================
