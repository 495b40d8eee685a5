------------------------------- MODULE DamImpl -------------------------------
(***************************************************************************)
(* How DAM-RS does it: the channel implementations, access by access, for   *)
(* the programs of Families.  The clocks, the queue of elements and the     *)
(* queue of responses of a channel are the only things that contexts share; *)
(* a step is what one context does up to its next access to one of them.    *)
(* TLC explores every interleaving, with and without flavour inference.     *)
(*                                                                         *)
(* When nothing can move, what the contexts saw is written down as the      *)
(* harness writes down an execution of the real crate, and DamApi judges it *)
(* (cfg: P <- Subject).  So the properties that DamApi decides are checked  *)
(* here of the algorithm itself, for every schedule: the results, clocks    *)
(* and time stamps are those of the one canonical execution, promises of    *)
(* peeks are kept, nothing hangs except as DamApi says, closures and        *)
(* failures are what they should be.                                       *)
(*                                                                         *)
(* FAMILY, LEN, FIRST, COUNT select programs as in DamGen; ORDER = "1"      *)
(* gives operations places in a global order, which judging views needs;    *)
(* INFER: "0", "1" or "2" (both).                                           *)
(***************************************************************************)
EXTENDS DamApi, Families, SequencesExt

VARIABLES
  x,      \* the execution as DamApi sees it, and until it ends also the state of the implementation
  phase   \* "exec", "over", "judge"

Subject == x
NoRuns == <<>>
Yes(c, s) == TRUE
AnyView(p, r) == Ok
No(c, s) == FALSE

Num(s) == atoi(s)
Len0 == Num(IOEnv.LEN)
F == IOEnv.FAMILY
Total == Size(F, Len0)
Count == IF Num(IOEnv.COUNT) < Total THEN Num(IOEnv.COUNT) ELSE Total
N == Spread(Total, Count, Num(IOEnv.FIRST))
Progs == [i \in 1 .. Count |-> Small(F, Len0, N[i])]
Ordered == IOEnv.ORDER = "1"
Infers == IF IOEnv.INFER = "0" THEN {FALSE} ELSE IF IOEnv.INFER = "1" THEN {TRUE} ELSE BOOLEAN

------------------------------------------------------------------------------
(* State *)

Proc(p) == [k |-> "script", top |-> p, own |-> p, decl |-> FALSE, conns |-> <<>>,
            runs |-> 1, inits |-> 1, fin |-> -1, fininf |-> FALSE]
ChanOf(w) == [cap |-> w.cap, lat |-> w.lat, rlat |-> w.rlat, void |-> FALSE, snd |-> w.snd + 1, rcv |-> w.rcv + 1, known |-> TRUE]
NoRec == [op |-> "", ch |-> 0, chs |-> <<>>, n |-> 0, v |-> 0, t |-> 0, inf |-> FALSE, res |-> "pend", c0 |-> 0, c1 |-> 0,
          s0 |-> 0, s1 |-> 0]
None == [k |-> "none", v |-> 0, t |-> 0]

Begin(g, inf) ==
  LET C == DOMAIN g.chans Q == DOMAIN g.scripts IN
  [ \* as DamApi sees it
    chans |-> [c \in C |-> ChanOf(g.chans[c])], procs |-> [p \in Q |-> Proc(p)], infer |-> inf,
    logs |-> [p \in Q |-> <<>>], out |-> "", fails |-> <<>>, passed |-> FALSE, elapsed |-> -1,
    early |-> FALSE, stamps |-> <<>>, vals |-> <<>>, taken |-> <<>>,
    \* the implementation
    ck |-> [p \in Q |-> 0],                          \* the clocks; INF once the context is over
    und |-> [c \in C |-> <<>>], resp |-> [c \in C |-> <<>>],
    so |-> [c \in C |-> TRUE], ro |-> [c \in C |-> TRUE],   \* endpoints that exist
    head |-> [c \in C |-> None],                     \* what the receiver has found at the head
    srd |-> [c \in C |-> 0], nav |-> [c \in C |-> None],    \* what the sender knows of free slots
    m |-> [p \in Q |-> [i |-> 1, pc |-> "op", r |-> NoRec, k |-> 1, acc |-> <<>>, rt |-> 0, last |-> 0]],
    scr |-> g.scripts, seq |-> 0, bad |-> "" ]

Nobody == [p \in {} |-> 0]
InitI ==
  /\ tid \in 1 .. Count
  /\ \E inf \in Infers : x = Begin(Progs[tid], inf)
  /\ phase = "exec"
  /\ clk = <<>> /\ hi = <<>> /\ q = <<>> /\ cr = <<>> /\ ns = <<>> /\ sdr = <<>> /\ rdr = <<>>
  /\ pos = <<>> /\ st = <<>> /\ aux = <<>> /\ err = ""

Cyclic(c) == ~x.infer \/ OnCycle(c)

------------------------------------------------------------------------------
(* Steps.  y is a state, the result is a state or, where a step can block, a set of at most one. *)

Tick(y) == IF Ordered THEN [y EXCEPT !.seq = @ + 1] ELSE y
Advance(y, p, t) == [y EXCEPT !.ck[p] = Max(@, t)]
Bad1(y, what) == [y EXCEPT !.bad = what]

\* the operation is done
Done(y, p, res, v, t) ==
  LET r == [y.m[p].r EXCEPT !.res = res, !.v = v, !.t = t, !.c1 = y.ck[p], !.s1 = y.seq]
  IN Tick([y EXCEPT !.logs[p] = Append(@, r), !.m[p].i = @ + 1, !.m[p].pc = "op", !.m[p].r = NoRec, !.m[p].k = 1,
                    !.m[p].acc = <<>>, !.m[p].rt = 0,
                    !.m[p].last = IF r.op = "deq" /\ res = "ok" THEN v ELSE @])
Goto(y, p, pc) == [y EXCEPT !.m[p].pc = pc]

\* beginning an operation: records it and says where it starts
Start(y, p) ==
  LET mm == y.m[p]
      S == y.scr[p]
      rec(op, ch, chs, n, v) == [NoRec EXCEPT !.op = op, !.ch = ch, !.chs = chs, !.n = n, !.v = v, !.c0 = y.ck[p], !.s0 = y.seq]
      go(r, pc) == Tick([y EXCEPT !.m[p].r = r, !.m[p].pc = pc])
  IN
  IF mm.i > Len(S) THEN go(rec("end", 0, <<>>, 0, 0), "last")
  ELSE LET o == S[mm.i] c == o[2] + 1 IN
  CASE o[1] = "yield" -> [y EXCEPT !.m[p].i = @ + 1]
    [] o[1] = "enq" -> go(rec("enq", c, <<>>, y.ck[p] + o[3], 10 * p + mm.i), "W0")
    [] o[1] = "fwd" -> go(rec("enq", c, <<>>, y.ck[p] + o[3], mm.last + 100), "W0")
    [] o[1] = "wav" -> go(rec("wav", c, <<>>, 0, 0), "W0")
    [] o[1] \in {"deq", "pkn"} -> go(rec(o[1], c, <<>>, 0, 0), IF Cyclic(c) THEN "P0" ELSE "A0")
    [] o[1] = "pk" -> go(rec("pk", c, <<>>, 0, 0), "P0")
    [] o[1] = "ev" -> go(rec("ev1", 0, <<c>>, 0, 0), "P0")
    [] o[1] \in {"evall", "evany"} -> go(rec(o[1], 0, <<1, 2>>, 0, 0), "P0")
    [] o[1] = "inc" -> go(rec("inc", 0, <<>>, o[3], 0), "inc")
    [] o[1] = "wait" -> go(rec("wait", 0, <<c>>, y.ck[p], 0), "wait")
    [] o[1] = "tlb" -> go(rec("tlb", 0, <<c>>, 0, 0), "tlb")
    [] o[1] = "dropS" -> go(rec("dropS", c, <<>>, 0, 0), "dropS")
    [] o[1] = "dropR" -> go(rec("dropR", c, <<>>, 0, 0), "dropR")
    [] o[1] = "fail" -> go(rec("fail", 0, <<>>, o[3], 0), "last")

\* BoundedCyclicSender::update_srd: <<whether something was learned, state>>
RECURSIVE Update(_, _, _, _)
Update(y, p, c, got) ==
  IF y.resp[c] # <<>> THEN
    LET t == y.resp[c][1] z == [y EXCEPT !.resp[c] = Tail(@)] IN
    IF t <= y.ck[p] THEN Update(IF y.srd[c] > 0 THEN [z EXCEPT !.srd[c] = @ - 1] ELSE Bad1(z, "srd"), p, c, TRUE)
    ELSE <<TRUE, [z EXCEPT !.nav[c] = [k |-> "at", v |-> 0, t |-> t]]>>
  ELSE IF ~y.ro[c] THEN <<TRUE, [y EXCEPT !.nav[c] = [k |-> "never", v |-> 0, t |-> 0]]>>
  ELSE <<got, y>>

\* wait_until_available is over
Waited(y, p, ok) ==
  IF y.m[p].r.op = "wav" THEN Done(y, p, IF ok THEN "ok" ELSE "closed", 0, 0)
  ELSE IF ok THEN Goto(y, p, "E1") ELSE Done(y, p, "closed", y.m[p].r.v, 0)

\* what a peek answers
Answer(y, p, c, h) ==
  LET op == y.m[p].r.op IN
  CASE op = "pk" ->
         Done(y, p, CASE h.k = "some" -> "ok" [] h.k = "nothing" -> "none" [] OTHER -> "closed",
              IF h.k = "some" THEN h.v ELSE 0, IF h.k = "closed" THEN 0 ELSE IF h.t = INF THEN -1 ELSE h.t)
    [] op \in {"deq", "pkn"} ->
         IF h.k = "closed" THEN Done(y, p, "closed", 0, 0)
         ELSE IF h.k = "some" THEN Goto(y, p, "D1")
         ELSE IF h.t = INF THEN Bad1(y, "peek_next until infinity")
         ELSE [y EXCEPT !.m[p].rt = h.t, !.m[p].pc = "N"]
    [] OTHER -> \* combined events
         LET e == IF h.k = "closed" \/ (h.k = "nothing" /\ h.t = INF) THEN <<"closed", INF>>
                  ELSE IF h.k = "some" THEN <<"ok", h.t>> ELSE <<"none", h.t + 1>>
             a == Append(y.m[p].acc, e)
             say(w) == Done(y, p, w[1], 0, IF w[1] = "closed" THEN 0 ELSE IF w[1] = "ok" THEN w[2] ELSE w[2] - 1)
         IN IF Len(a) < Len(y.m[p].r.chs) THEN [y EXCEPT !.m[p].acc = a, !.m[p].k = @ + 1, !.m[p].pc = "P0"]
            ELSE IF op = "evany"
            THEN say(a[CHOOSE i \in DOMAIN a : \A j \in DOMAIN a : a[i][2] < a[j][2] \/ (a[i][2] = a[j][2] /\ i <= j)])
            ELSE LET l == a[CHOOSE i \in DOMAIN a : \A j \in DOMAIN a : a[i][2] > a[j][2] \/ (a[i][2] = a[j][2] /\ i >= j)] IN
                 IF l[1] = "closed" THEN say(l)
                 ELSE IF \A i \in DOMAIN a : a[i][1] = "ok" THEN say(l) ELSE say(<<"none", l[2]>>)

Step1(y, p) ==
  LET mm == y.m[p] r == mm.r
      c == IF r.chs # <<>> THEN r.chs[mm.k] ELSE r.ch
      resp(z, t) == IF Bounded(c) /\ z.so[c] THEN [z EXCEPT !.resp[c] = Append(@, t + RLat(c))] ELSE z
  IN
  CASE mm.pc = "op" -> {Start(y, p)}
    [] mm.pc = "inc" -> {Done([y EXCEPT !.ck[p] = @ + r.n], p, "ok", 0, 0)}
    [] mm.pc = "dropS" -> {Done([y EXCEPT !.so[c] = FALSE, !.resp[c] = <<>>], p, "ok", 0, 0)}
    [] mm.pc = "dropR" -> {Done([y EXCEPT !.ro[c] = FALSE, !.und[c] = <<>>], p, "ok", 0, 0)}
    [] mm.pc \in {"wait", "tlb"} ->
         LET d == y.ck[c] IN
         IF mm.pc = "wait" /\ d < r.n THEN {}
         ELSE IF d = INF THEN {Done(y, p, "inf", 0, y.procs[c].fin)} ELSE {Done(y, p, "ok", 0, d)}
    \* enqueues
    [] mm.pc = "W0" ->
         IF ~Bounded(c) \/ y.srd[c] < Cap(c) THEN {Waited(y, p, TRUE)}
         ELSE IF ~Cyclic(c) THEN
           IF y.resp[c] # <<>> THEN
             {Waited(Advance([y EXCEPT !.srd[c] = @ - 1, !.resp[c] = Tail(@)], p, y.resp[c][1]), p, TRUE)}
           ELSE IF ~y.ro[c] THEN {Waited(y, p, FALSE)} ELSE {}
         ELSE CASE y.nav[c].k = "at" -> {Waited(Advance([y EXCEPT !.srd[c] = @ - 1, !.nav[c] = None], p, y.nav[c].t), p, TRUE)}
                [] y.nav[c].k = "never" -> {Waited(y, p, FALSE)}
                [] y.nav[c].k = "back" ->
                     IF y.nav[c].t >= INF THEN {Bad1(y, "advance to infinity")}
                     ELSE {Goto(Advance([y EXCEPT !.nav[c] = None], p, y.nav[c].t), p, "W1")}
                [] OTHER -> LET u == Update(y, p, c, FALSE) IN {Goto(u[2], p, IF u[1] THEN "W0" ELSE "W2")}
    [] mm.pc = "W1" -> LET u == Update(y, p, c, FALSE) IN {Goto(u[2], p, IF u[1] THEN "W0" ELSE "W2")}
    [] mm.pc = "W2" -> LET d == y.ck[P.chans[c].rcv] IN
                       IF d >= y.ck[p] THEN {[y EXCEPT !.m[p].rt = d, !.m[p].pc = "W3"]} ELSE {}
    [] mm.pc = "W3" -> LET u == Update(y, p, c, FALSE) IN
                       {Goto(IF u[1] THEN u[2] ELSE [u[2] EXCEPT !.nav[c] = [k |-> "back", v |-> 0, t |-> mm.rt + RLat(c)]], p, "W0")}
    [] mm.pc = "E1" ->
         LET t == Max(r.n, y.ck[p] + Lat(c)) IN
         IF ~y.ro[c] THEN {Done(y, p, "closed", r.v, 0)}
         ELSE LET z == [y EXCEPT !.und[c] = Append(@, <<r.v, t>>), !.srd[c] = IF Bounded(c) THEN @ + 1 ELSE @] IN
              {Done(IF Bounded(c) /\ Len(z.und[c]) > Cap(c) THEN Bad1(z, "more elements than slots") ELSE z, p, "ok", r.v, 0)}
    \* peeks
    [] mm.pc = "P0" ->
         LET rt == y.ck[p] h == y.head[c] IN
         IF h.k \in {"closed", "some"} \/ (h.k = "nothing" /\ h.t >= rt) THEN {Answer(y, p, c, h)}
         ELSE {[y EXCEPT !.m[p].rt = rt, !.m[p].pc = "P1"]}
    [] mm.pc = "P1" ->
         IF y.und[c] # <<>> THEN
           LET h == [k |-> "some", v |-> y.und[c][1][1], t |-> y.und[c][1][2]] IN
           {Answer([y EXCEPT !.und[c] = Tail(@), !.head[c] = h], p, c, h)}
         ELSE IF ~y.so[c] THEN {Answer([y EXCEPT !.head[c] = [None EXCEPT !.k = "closed"]], p, c, [None EXCEPT !.k = "closed"])}
         ELSE {Goto(y, p, "P2")}
    [] mm.pc = "P2" -> LET d == y.ck[P.chans[c].snd] IN
                       IF d >= mm.rt THEN {[y EXCEPT !.m[p].rt = d, !.m[p].pc = "P3"]} ELSE {}
    [] mm.pc = "P3" ->
         LET h == IF y.und[c] # <<>> THEN [k |-> "some", v |-> y.und[c][1][1], t |-> y.und[c][1][2]]
                  ELSE IF ~y.so[c] \/ mm.rt = INF THEN [None EXCEPT !.k = "closed"]
                  ELSE [k |-> "nothing", v |-> 0, t |-> mm.rt]
         IN {Answer([y EXCEPT !.und[c] = IF @ # <<>> THEN Tail(@) ELSE @, !.head[c] = h], p, c, h)}
    \* dequeues and peek_nexts
    [] mm.pc = "N" -> {IF y.ck[p] >= mm.rt + 1 THEN Bad1(y, "peek_next does not move") ELSE Goto(Advance(y, p, mm.rt + 1), p, "P0")}
    [] mm.pc = "A0" ->
         LET h == y.head[c] IN
         IF h.k = "closed" THEN {Done(y, p, "closed", 0, 0)}
         ELSE IF h.k = "some" THEN {Goto(y, p, "D1")}
         ELSE IF y.und[c] # <<>> THEN
           LET e == y.und[c][1] z == [y EXCEPT !.und[c] = Tail(@)] IN
           IF r.op = "pkn" THEN {Done(Advance([z EXCEPT !.head[c] = [k |-> "some", v |-> e[1], t |-> e[2]]], p, e[2]), p, "ok", e[1], e[2])}
           ELSE {[resp(z, Max(e[2], y.ck[p])) EXCEPT !.m[p].pc = "A2", !.m[p].acc = <<e>>]}
         ELSE IF ~y.so[c] THEN {Done([y EXCEPT !.head[c].k = "closed"], p, "closed", 0, 0)} ELSE {}
    [] mm.pc = "A2" -> {Done(Advance(y, p, mm.acc[1][2]), p, "ok", mm.acc[1][1], mm.acc[1][2])}
    [] mm.pc = "D1" -> LET h == y.head[c] z == Advance(y, p, h.t) IN
                       {IF r.op = "pkn" THEN Done(z, p, "ok", h.v, h.t) ELSE Goto(z, p, "D2")}
    [] mm.pc = "D2" -> LET h == y.head[c] IN
                       {Done(resp([y EXCEPT !.head[c] = None], Max(h.t, y.ck[p])), p, "ok", h.v, h.t)}
    \* the end: the script returns, then the endpoints are dropped, then the clock goes to infinity
    [] mm.pc = "last" ->
         LET z == Done(y, p, "ok", 0, 0) IN
         {[z EXCEPT !.m[p].pc = "drop", !.m[p].k = 1, !.m[p].r = NoRec,
                    !.fails = IF r.op = "fail" THEN Append(@, p) ELSE @, !.procs[p].fin = y.ck[p]]}
    [] mm.pc = "drop" ->
         LET C == DOMAIN y.chans
             S == {d \in C : P.chans[d].snd = p /\ y.so[d]} R == {d \in C : P.chans[d].rcv = p /\ y.ro[d]} IN
         IF S # {} THEN LET d == Lowest(S) IN {[y EXCEPT !.so[d] = FALSE, !.resp[d] = <<>>]}
         ELSE IF R # {} THEN LET d == Lowest(R) IN {[y EXCEPT !.ro[d] = FALSE, !.und[d] = <<>>]}
         ELSE {[y EXCEPT !.ck[p] = INF, !.procs[p].fininf = TRUE, !.m[p].pc = "over"]}
    [] OTHER -> {}

\* steps that neither see nor change what is shared (if nobody asks for the order of operations)
Local(p) == ~Ordered /\ x.m[p].pc = "op"

------------------------------------------------------------------------------
(* The end of an execution, as the harness records it *)

RECURSIVE Collect(_, _, _)
Collect(L, c, f) ==
  IF L = <<>> THEN <<>>
  ELSE LET r == Head(L) rest == Collect(Tail(L), c, f) IN
       IF r.ch = c /\ r.res = "ok" /\ r.op = (IF f = "taken" THEN "deq" ELSE "enq")
       THEN <<IF f = "taken" THEN r.s0 ELSE IF f = "vals" THEN r.v ELSE Max(r.n, r.c1 + Lat(c))>> \o rest ELSE rest
Ended(y) ==
  LET Q == DOMAIN y.procs C == DOMAIN y.chans
      over == \A p \in Q : y.m[p].pc = "over"
      logs == [p \in Q |-> IF y.m[p].r.op # "" THEN Append(y.logs[p], y.m[p].r) ELSE y.logs[p]]
      ok == {p \in Q : p \notin Range(y.fails)}
      get(f) == [c \in C |-> Collect(y.logs[IF f = "taken" THEN y.chans[c].rcv ELSE y.chans[c].snd], c, f)]
  IN [chans |-> y.chans, infer |-> y.infer, logs |-> logs, early |-> FALSE, bad |-> y.bad,
      procs |-> IF over THEN y.procs ELSE [p \in Q |-> [y.procs[p] EXCEPT !.fin = -1]],
      out |-> IF over THEN "done" ELSE "stuck", fails |-> SetToSeq(Range(y.fails)), passed |-> y.fails = <<>>,
      elapsed |-> IF ok = {} \/ ~over THEN -1 ELSE MaxSet({y.procs[p].fin : p \in ok}),
      stamps |-> get("stamps"), vals |-> get("vals"), taken |-> get("taken")]

\* contexts that wait for each other's clocks move them without end; no program of a family gets this far otherwise
Endless == \E p \in DOMAIN x.procs : x.ck[p] # INF /\ x.ck[p] > 20 * Len0
Move(y) == x' = y /\ UNCHANGED <<tid, phase, clk, hi, q, cr, ns, sdr, rdr, pos, st, aux, err>>
NextI ==
  \/ /\ phase = "exec" /\ x.bad = ""
     /\ LET Q == DOMAIN x.procs L == {p \in Q : Local(p)} IN
        IF Endless THEN /\ x' = Ended(x) /\ phase' = "over"
                        /\ UNCHANGED <<tid, clk, hi, q, cr, ns, sdr, rdr, pos, st, aux, err>>
        ELSE IF L # {} THEN \E y \in Step1(x, Lowest(L)) : Move(y)
        ELSE IF \E p \in Q : Step1(x, p) # {} THEN \E p \in Q : \E y \in Step1(x, p) : Move(y)
        ELSE /\ x' = Ended(x) /\ phase' = "over"
             /\ UNCHANGED <<tid, clk, hi, q, cr, ns, sdr, rdr, pos, st, aux, err>>
  \/ /\ phase = "over" /\ phase' = "judge"
     /\ clk' = [p \in Procs |-> 0] /\ hi' = [p \in Procs |-> 0]
     /\ q' = [c \in Chans |-> <<>>]
     /\ cr' = [c \in Chans |-> IF Cap(c) > 0 THEN [i \in 1..Cap(c) |-> 0] ELSE <<>>]
     /\ ns' = [c \in Chans |-> 0] /\ sdr' = [c \in Chans |-> -1] /\ rdr' = [c \in Chans |-> -1]
     /\ pos' = [p \in Procs |-> 1] /\ st' = [p \in Procs |-> "run"] /\ aux' = [p \in Procs |-> InitAux(p)]
     /\ UNCHANGED <<tid, x, err>>
  \/ /\ phase = "judge" /\ err = ""
     /\ LET E == EnabledNow FF == Foreseeing IN
        IF E # {} THEN Step(Lowest(E)) ELSE IF FF # {} THEN StepRec(Lowest(FF)) ELSE Conclude
     /\ UNCHANGED <<x, phase>>

SpecI == InitI /\ [][NextI]_<<vars, x, phase>>

------------------------------------------------------------------------------
Judging == phase = "judge"
\* every behaviour of the algorithm is one that DamApi permits
Accepted == Judging => err \in {"", "accept"}
\* no assertion of the implementation fails
Sound == x.bad = ""
ConservedJ == Judging => Conserved
CausalJ == Judging => Causal
\* slots are never overrun
Slots == phase = "exec" => \A c \in DOMAIN x.chans : Bounded(c) => Len(x.und[c]) <= Cap(c) /\ Len(x.resp[c]) <= Cap(c)
=============================================================================
