------------------------------- MODULE DamApi -------------------------------
(***************************************************************************)
(* The observable semantics of DAM-RS: contexts with local clocks that     *)
(* communicate over timed single-producer single-consumer channels.        *)
(*                                                                         *)
(* A channel is two FIFO queues: elements <<value, stamp>> from sender to   *)
(* receiver, and credits (times) from receiver to sender.  A bounded       *)
(* channel starts with capacity-many credits of time 0; an enqueue takes a  *)
(* credit, a dequeue returns one stamped with the receiver's clock plus     *)
(* the response latency.  Unbounded channels need no credits.              *)
(*                                                                         *)
(* Contexts ("processes") are deterministic except for what peeks show      *)
(* them, so the network is a Kahn network in time: the results of every     *)
(* blocking operation are functions of the program alone.  This module      *)
(* executes the network operation by operation.                             *)
(*                                                                         *)
(*  - Scripted contexts follow a recorded log: each record states the       *)
(*    operation, its arguments and what the implementation returned.  A     *)
(*    record is accepted if the specification permits that result in the    *)
(*    current state, it waits if the specification blocks, and otherwise    *)
(*    the execution is rejected with the name of the rule it breaks.        *)
(*  - Library contexts (generators, sinks, broadcasts, PMU pipelines, DRAM, *)
(*    PCU) are processes of the specification itself: it executes them as   *)
(*    documented and the logs of their neighbours tell whether the          *)
(*    implementation did the same.                                          *)
(*                                                                         *)
(* Since the network is confluent, it suffices to run the lowest-numbered   *)
(* enabled process at each step.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)

VARIABLES
  tid,   \* the execution that is checked
  clk,   \* clock of each process
  hi,    \* upper bound of the clock of a process that ended on a closed channel
  q,     \* elements in flight, per channel
  cr,    \* credits, per channel
  ns,    \* number of elements enqueued so far, per channel
  sdr,   \* -1, or the sender's clock when it dropped its endpoint
  rdr,   \* -1, or the receiver's clock when it dropped its endpoint
  pos,   \* next record of each scripted process
  st,    \* "run", "done", "fail"
  aux,   \* local state of library processes
  err    \* "" or the rule that is broken

vars == <<tid, clk, hi, q, cr, ns, sdr, rdr, pos, st, aux, err>>

P == Runs[tid]
Chans == DOMAIN P.chans
Procs == DOMAIN P.procs
K(p) == P.procs[p].k
IsScript(p) == K(p) = "script"
Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
INF == 1000000000

------------------------------------------------------------------------------
(* Channels *)

Cap(c) == P.chans[c].cap
Lat(c) == P.chans[c].lat
RLat(c) == P.chans[c].rlat
Void(c) == P.chans[c].void
Bounded(c) == Cap(c) >= 0 /\ ~Void(c)

HasCredit(c) == ~Bounded(c) \/ cr[c] # <<>>
\* the sender's clock once it has the credit
CreditClk(p, c) == IF Bounded(c) /\ cr[c] # <<>> THEN Max(clk[p], cr[c][1]) ELSE clk[p]
Stamp(p, c, t) == Max(t, CreditClk(p, c) + Lat(c))
\* the most a sender's clock can reach while finding out that the receiver is gone
ClosedClk(p, c) == Max(CreditClk(p, c), rdr[c] + RLat(c))

\* what the sender of c will enqueue next, as stamps: known in advance for scripted senders
Unknown == -1
NextT(c) ==
  IF q[c] # <<>> THEN q[c][1][2]
  ELSE IF sdr[c] >= 0 THEN INF
  ELSE IF P.chans[c].known
       THEN IF ns[c] + 1 <= Len(P.stamps[c]) THEN P.stamps[c][ns[c] + 1]
            ELSE IF P.out = "done" THEN INF ELSE Unknown
       ELSE Unknown
NextV(c) ==
  IF q[c] # <<>> THEN q[c][1][1] ELSE P.vals[c][ns[c] + 1]

------------------------------------------------------------------------------
(* Library processes: the next operation they want, given their local state *)

Req(op, c, n, v) == [op |-> op, ch |-> c, n |-> n, v |-> v]

(* min over ports of event times, ties to the lower index; <<0, INF>> if all closed, <<0, -1>> if unknown *)
PortT(chs) ==  \* the time at which all of these channels have an element
  IF \E i \in DOMAIN chs : NextT(chs[i]) = INF THEN INF
  ELSE IF \E i \in DOMAIN chs : NextT(chs[i]) = Unknown THEN Unknown
  ELSE MaxSet({NextT(chs[i]) : i \in DOMAIN chs})
Select(ports) ==
  LET T == [i \in DOMAIN ports |-> PortT(ports[i])]
  IN IF \E i \in DOMAIN ports : T[i] = Unknown THEN <<0, Unknown>>
     ELSE IF \A i \in DOMAIN ports : T[i] = INF THEN <<0, INF>>
     ELSE LET b == CHOOSE i \in DOMAIN ports :
                     /\ T[i] # INF
                     /\ \A j \in DOMAIN ports : T[i] < T[j] \/ (T[i] = T[j] /\ i <= j)
          IN <<b, T[b]>>
Queued(chs) == \A i \in DOMAIN chs : q[chs[i]] # <<>>

(* datastores: the history of writes, in order *)
Wrap(a, cap, mod) == IF mod THEN a % cap ELSE a
LastWrite(mem, a, t) ==
  LET S == {i \in DOMAIN mem : mem[i][1] = a /\ mem[i][2] <= t}
  IN IF S = {} THEN 0 ELSE MaxSet(S)
ReadMem(mem, a, t) == LET i == LastWrite(mem, a, t) IN IF i = 0 THEN 0 ELSE mem[i][3]

\* the writer pipeline of the PMU whose reader is p cannot write at or before t any more
PmuWriterPast(w, t) ==
  \/ st[w] # "run"
  \/ clk[w] > t
  \/ /\ aux[w].pc = "sel"
     /\ LET s == Select(aux[w].ports) IN s[2] = INF \/ (s[2] # Unknown /\ s[2] > t)

(* PCU stages *)
StageOut(s, prev, next) ==
  LET in1 == [i \in DOMAIN s.prev |-> prev[s.prev[i] + 1]]
      in2 == [i \in DOMAIN s.next |-> next[s.next[i] + 1]]
      f == CASE s.op = 0 -> <<in1[1] + in1[2]>>
             [] s.op = 1 -> <<in1[1] - in1[2]>>
             [] s.op = 2 -> <<in1[1] * in1[2]>>
             [] s.op = 3 -> <<in1[1] + in2[1]>>
             [] s.op = 4 -> <<in1[2], in1[1]>>
             [] OTHER -> <<>>
      a == [r \in DOMAIN next |->
             IF \E i \in DOMAIN s.out : s.out[i] + 1 = r
             THEN f[CHOOSE i \in DOMAIN s.out : s.out[i] + 1 = r /\ \A j \in DOMAIN s.out : s.out[j] + 1 = r => j <= i]
             ELSE next[r]]
  IN [r \in DOMAIN next |->
       IF \E i \in DOMAIN s.fwd : s.fwd[i][2] + 1 = r
       THEN prev[s.fwd[CHOOSE i \in DOMAIN s.fwd :
                  s.fwd[i][2] + 1 = r /\ \A j \in DOMAIN s.fwd : s.fwd[j][2] + 1 = r => j <= i][1] + 1]
       ELSE a[r]]
RECURSIVE Pipe(_, _, _)
Pipe(stages, regs, i) ==
  IF i >= Len(regs) THEN regs
  ELSE LET new == IF i <= Len(stages) THEN StageOut(stages[i], regs[i], regs[i + 1]) ELSE regs[i]
       IN Pipe(stages, [regs EXCEPT ![i + 1] = new], i + 1)

Want(p) ==
  LET x == P.procs[p] a == aux[p] IN
  CASE x.k = "gen" ->
         IF a.i > Len(x.vals) THEN Req("end", 0, 0, 0)
         ELSE IF a.pc = "enq" THEN Req("enq", x.out, clk[p] + 1, x.vals[a.i])
         ELSE Req("inc", 0, 1, 0)
    [] x.k = "trace" ->
         IF a.i > Len(x.items) THEN Req("end", 0, 0, 0)
         ELSE IF a.pc = "adv" THEN Req("adv", 0, x.items[a.i][2] - 1, 0)
         ELSE Req("enq", x.out, clk[p] + 1, x.items[a.i][1])
    [] x.k = "consumer" ->
         IF a.pc = "end" THEN Req("end", 0, 0, 0)
         ELSE IF a.pc = "deq" THEN Req("deq", x.inp, 0, 0)
         ELSE Req("inc", 0, 1, 0)
    [] x.k \in {"checker", "approx"} ->
         IF a.pc = "fail" THEN Req("fail", 0, 0, 0)
         ELSE IF a.i > Len(x.vals) THEN Req("end", 0, 0, 0)
         ELSE Req("deq", x.inp, 0, 0)
    [] x.k = "bcast" ->
         IF a.pc = "end" THEN Req("end", 0, 0, 0)
         ELSE IF a.pc = "deq" THEN Req("deq", x.inp, 0, 0)
         ELSE IF a.pc = "wav" THEN Req("wav", x.outs[a.i], 0, 0)
         ELSE Req("enq", x.outs[a.i], a.t, a.v)
    [] x.k = "pcu" ->
         IF a.pc = "end" THEN Req("end", 0, 0, 0)
         ELSE IF a.pc = "pkn" THEN Req("pkn", x.ins[a.i], 0, 0)
         ELSE IF a.pc = "deq" THEN Req("deq", x.ins[a.i], 0, 0)
         ELSE IF a.pc = "enq" THEN Req("enq", x.outs[a.i], a.t, a.regs[Len(a.regs)][a.i])
         ELSE Req("inc", 0, 1, 0)
    [] x.k = "pmur" ->
         IF a.pc = "end" THEN Req("end", 0, 0, 0)
         ELSE IF a.pc = "sel" THEN Req("sel", 0, 0, 0)
         ELSE IF a.pc = "deq" THEN Req("deq", a.ports[a.i][1], 0, 0)
         ELSE IF a.pc = "read" THEN Req("await", 0, clk[p], 0)
         ELSE IF a.pc = "enq" THEN Req("enq", a.outs[a.i], a.t, a.v)
         ELSE Req("inc", 0, 1, 0)
    [] x.k = "pmuw" ->
         IF a.pc = "end" THEN Req("end", 0, 0, 0)
         ELSE IF a.pc = "sel" THEN Req("sel", 0, 0, 0)
         ELSE IF a.pc = "deq" THEN Req("deq", a.ports[a.i][1], 0, 0)
         ELSE IF a.pc = "deq2" THEN Req("deq", a.ports[a.i][2], 0, 0)
         ELSE IF a.pc = "enq" THEN Req("enq", a.outs[a.i], a.t, 0)
         ELSE Req("inc", 0, 1, 0)
    [] x.k = "dram" ->
         IF a.pc = "end" THEN Req("end", 0, 0, 0)
         ELSE IF a.pc = "win" THEN Req("adv", 0, IF Len(a.win) = x.simul THEN a.win[1] ELSE 0, 0)
         ELSE IF a.pc = "sel" THEN Req("sel", 0, 0, 0)
         ELSE IF a.pc = "addr" THEN Req("deq", a.ports[a.i][1], 0, 0)
         ELSE IF a.pc = "size" THEN Req("deq", a.ports[a.i][2], 0, 0)
         ELSE IF a.pc = "data" THEN Req("deq", a.ports[a.i][3], 0, 0)
         ELSE IF a.pc = "ack" THEN Req("enq", a.outs[a.i], a.t, 0)
         ELSE \* a read's results, one at a time
              LET t == Max(clk[p] + 1, a.t + 1) IN Req("enq", a.outs[a.i], t, a.buf[Len(a.buf) - a.n + 1])
    [] OTHER -> Req("end", 0, 0, 0)

(* The local state after the operation: ok, the clock afterwards, the value received *)
DramNext(a, x) == IF a.n = 0 THEN [a EXCEPT !.pc = "win", !.win = Append(a.win, a.t)] ELSE [a EXCEPT !.pc = "res"]
After(p, ok, c1, v) ==
  LET x == P.procs[p] a == aux[p] IN
  CASE x.k = "gen" ->
         IF ~ok THEN [a EXCEPT !.pc = "fail"]
         ELSE IF a.pc = "enq" THEN [a EXCEPT !.pc = "inc"] ELSE [a EXCEPT !.pc = "enq", !.i = @ + 1]
    [] x.k = "trace" ->
         IF ~ok THEN [a EXCEPT !.pc = "fail"]
         ELSE IF a.pc = "adv" THEN [a EXCEPT !.pc = "enq"] ELSE [a EXCEPT !.pc = "adv", !.i = @ + 1]
    [] x.k = "consumer" ->
         IF ~ok THEN [a EXCEPT !.pc = "end"]
         ELSE IF a.pc = "deq" THEN [a EXCEPT !.pc = "inc"] ELSE [a EXCEPT !.pc = "deq"]
    [] x.k \in {"checker", "approx"} ->
         IF ~ok THEN [a EXCEPT !.pc = "fail"]
         ELSE IF (x.k = "checker" /\ v = x.vals[a.i]) \/ (x.k = "approx" /\ v - x.vals[a.i] \in (-x.tol)..x.tol)
              THEN [a EXCEPT !.i = @ + 1] ELSE [a EXCEPT !.pc = "fail"]
    [] x.k = "bcast" ->
         IF a.pc = "deq" THEN
            IF ~ok THEN [a EXCEPT !.pc = "end"]
            ELSE [a EXCEPT !.pc = IF x.outs = <<>> THEN "deq" ELSE "wav", !.i = 1, !.v = v]
         ELSE IF ~ok THEN [a EXCEPT !.pc = "fail"]
         ELSE IF a.pc = "wav" THEN
            IF a.i < Len(x.outs) THEN [a EXCEPT !.i = @ + 1] ELSE [a EXCEPT !.pc = "enq", !.i = 1, !.t = c1 + 1]
         ELSE IF a.i < Len(x.outs) THEN [a EXCEPT !.i = @ + 1] ELSE [a EXCEPT !.pc = "deq"]
    [] x.k = "pcu" ->
         \* it takes what there is of the last set of inputs, even if one of them is closed
         IF a.pc = "pkn" THEN
            IF a.i < Len(x.ins) THEN [a EXCEPT !.i = @ + 1] ELSE [a EXCEPT !.pc = "deq", !.i = 1]
         ELSE IF a.pc = "deq" THEN
            LET b == IF ok THEN [a EXCEPT !.regs[1][a.i] = v] ELSE [a EXCEPT !.closed = TRUE] IN
            IF a.i < Len(x.ins) THEN [b EXCEPT !.i = @ + 1]
            ELSE IF b.closed THEN [b EXCEPT !.pc = "end"]
            ELSE [b EXCEPT !.pc = IF x.outs = <<>> THEN "inc" ELSE "enq", !.i = 1, !.t = c1 + x.depth,
                           !.regs = Pipe(x.stages, b.regs, 1)]
         ELSE IF ~ok THEN [a EXCEPT !.pc = "fail"]
         ELSE IF a.pc = "enq" THEN
            IF a.i < Len(x.outs) THEN [a EXCEPT !.i = @ + 1] ELSE [a EXCEPT !.pc = "inc", !.i = 1]
         ELSE [a EXCEPT !.pc = "pkn", !.i = 1]
    [] x.k = "pmur" ->
         IF a.pc = "deq" THEN [a EXCEPT !.pc = "read", !.addr = Wrap(v, x.cap, x.mod)]
         ELSE IF a.pc = "read" THEN [a EXCEPT !.pc = "enq", !.t = c1, !.v = ReadMem(aux[x.writer].mem, a.addr, c1)]
         ELSE IF a.pc = "enq" THEN [a EXCEPT !.pc = IF ok THEN "inc" ELSE "fail"]
         ELSE [a EXCEPT !.pc = "sel"]
    [] x.k = "pmuw" ->
         IF a.pc = "deq" THEN [a EXCEPT !.pc = "deq2", !.addr = Wrap(v, x.cap, x.mod)]
         ELSE IF a.pc = "deq2" THEN [a EXCEPT !.pc = "enq", !.t = c1, !.mem = Append(@, <<a.addr, c1, v>>)]
         ELSE IF a.pc = "enq" THEN [a EXCEPT !.pc = IF ok THEN "inc" ELSE "fail"]
         ELSE [a EXCEPT !.pc = "sel"]
    [] x.k = "dram" ->
         IF ~ok THEN [a EXCEPT !.pc = "fail"]
         ELSE IF a.pc = "win" THEN [a EXCEPT !.pc = "sel", !.win = IF Len(@) = x.simul THEN Tail(@) ELSE @]
         ELSE IF a.pc = "addr" THEN [a EXCEPT !.pc = "size", !.addr = v]
         ELSE
           LET pe == IF a.win = <<>> THEN 0 ELSE a.win[Len(a.win)]
               start == Max(c1 + x.lat, pe)
           IN
           IF a.pc = "size" /\ a.wr /\ v > 0 THEN [a EXCEPT !.pc = "data", !.n = v, !.buf = <<>>]
           ELSE IF a.pc = "data" /\ a.n > 1 THEN [a EXCEPT !.n = @ - 1, !.buf = Append(@, v)]
           ELSE IF a.pc = "data" \/ (a.pc = "size" /\ a.wr) THEN
             LET buf == IF a.pc = "data" THEN Append(a.buf, v) ELSE <<>>
                 wt == start + (Len(buf) * x.bits) \div x.bw
             IN [a EXCEPT !.pc = "ack", !.n = wt, !.t = wt + 1, !.buf = <<>>,
                          !.mem = @ \o [i \in 1..Len(buf) |-> <<Wrap(a.addr + i - 1, x.cap, x.mod), wt, buf[i]>>]]
           ELSE IF a.pc = "ack" THEN [a EXCEPT !.pc = "win", !.win = Append(@, Max(c1, a.n) + 1)]
           ELSE IF a.pc = "size" THEN \* a read of v elements
             LET vals == [i \in 1..v |-> ReadMem(a.mem, Wrap(a.addr + i - 1, x.cap, x.mod), start)]
                 sz == [i \in 1..v |-> IF LastWrite(a.mem, Wrap(a.addr + i - 1, x.cap, x.mod), start) = 0 THEN 64 ELSE x.bits]
                 tot == IF v = 0 THEN 0 ELSE LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE sz[i] + S(i - 1) IN S(v)
             IN DramNext([a EXCEPT !.n = v, !.buf = vals, !.t = start + tot \div x.bw], x)
           ELSE \* "res": the result was stamped as requested
             DramNext([a EXCEPT !.n = @ - 1, !.t = Max(clk[p] + 1, a.t + 1)], x)
    [] OTHER -> a

(* a selection: which port is served, at which time *)
AfterSel(p, s) ==
  LET a == aux[p] IN
  IF s[2] = INF THEN [a EXCEPT !.pc = "end"]
  ELSE IF K(p) = "dram" THEN [a EXCEPT !.pc = "addr", !.i = s[1], !.wr = P.procs[p].wr[s[1]]]
  ELSE [a EXCEPT !.pc = "deq", !.i = s[1]]

InitAux(p) ==
  LET x == P.procs[p] IN
  CASE x.k \in {"gen", "checker", "approx"} -> [pc |-> "enq", i |-> 1]
    [] x.k = "trace" -> [pc |-> "adv", i |-> 1]
    [] x.k = "consumer" -> [pc |-> "deq", i |-> 1]
    [] x.k = "bcast" -> [pc |-> "deq", i |-> 1, v |-> 0, t |-> 0]
    [] x.k = "pcu" -> [pc |-> IF x.ins = <<>> THEN "end" ELSE "pkn", i |-> 1, t |-> 0, closed |-> FALSE,
                       regs |-> [d \in 1..(x.depth + 1) |-> [r \in 1..x.nregs |-> 0]]]
    [] x.k = "pmur" -> [pc |-> "sel", i |-> 1, ports |-> x.ports, outs |-> x.outs, addr |-> 0, v |-> 0, t |-> 0]
    [] x.k = "pmuw" -> [pc |-> "sel", i |-> 1, ports |-> x.ports, outs |-> x.outs, addr |-> 0, t |-> 0, mem |-> <<>>]
    [] x.k = "dram" -> [pc |-> "win", i |-> 1, ports |-> x.ports, outs |-> x.outs, addr |-> 0, t |-> 0, n |-> 0,
                        wr |-> FALSE, buf |-> <<>>, win |-> <<>>,
                        mem |-> IF x.fill THEN [i \in 1..x.cap |-> <<i - 1, 0, 999 + i>>] ELSE <<>>]
    [] OTHER -> [pc |-> ""]

------------------------------------------------------------------------------
(* Records of scripted processes *)

Rec(p) == P.logs[p][pos[p]]
HasRec(p) == pos[p] <= Len(P.logs[p])
Range(s) == {s[i] : i \in DOMAIN s}

Ok == [k |-> "ok", rule |-> ""]
Wait == [k |-> "wait", rule |-> ""]
Bad(r) == [k |-> "bad", rule |-> r]
If(c, r) == IF c THEN Ok ELSE Bad(r)

EvT(r) ==  \* when the combined event happens: a time, INF or Unknown
  LET T == {NextT(c) : c \in Range(r.chs)} IN
  IF r.chs = <<>> THEN INF
  ELSE IF r.op = "evany" THEN
    IF Unknown \in T THEN Unknown ELSE CHOOSE x \in T : \A y \in T : x <= y
  ELSE IF INF \in T THEN INF ELSE IF Unknown \in T THEN Unknown ELSE MaxSet(T)

(* What is known of the clock of process d around a moment of the global order of records *)
\* the highest clock d can have reached by moment s: after the last operation begun by then
Upper(d, s) ==
  LET L == P.logs[d] B == {i \in DOMAIN L : L[i].s0 < s} IN
  IF B = {} THEN 0 ELSE IF L[MaxSet(B)].res = "pend" THEN INF ELSE L[MaxSet(B)].c1
\* the least clock d has by moment s: after the last operation ended by then
Lower(d, s) ==
  LET L == P.logs[d] B == {i \in DOMAIN L : L[i].res # "pend" /\ L[i].s1 < s} IN
  IF B = {} THEN 0 ELSE L[MaxSet(B)].c1
MayBeDone(d, s) ==
  \E i \in DOMAIN P.logs[d] : P.logs[d][i].op \in {"end", "fail", "cleanup"} /\ P.logs[d][i].s0 < s
LastClk(d) == LET L == P.logs[d] IN IF L = <<>> THEN 0 ELSE L[Len(L)].c1

ViewOk(p, r) ==
  LET D == Range(r.chs) IN
  IF r.res = "inf" THEN
    IF \E d \in D : ~MayBeDone(d, r.s1) THEN Bad("view-inf")
    ELSE If(\E d \in D : r.t = LastClk(d), "view-final")
  ELSE IF r.op = "wait" /\ r.t < r.n THEN Bad("view-early")
  ELSE IF \E d \in D : r.t > Upper(d, r.s1) /\ ~MayBeDone(d, r.s1) THEN Bad("view-high")
  ELSE IF \A d \in D : r.t > Upper(d, r.s1) THEN Bad("view-high")
  ELSE IF \A d \in D : r.t < Lower(d, r.s0) THEN Bad("view-low")
  ELSE Ok

\* the k-th enqueue completes only after the dequeue that frees its slot has begun
SlotTaken(c, s) ==
  LET k == ns[c] + 1 - Cap(c) IN
  Bounded(c) /\ k > 0 /\ k <= Len(P.taken[c]) => P.taken[c][k] < s
\* the receiver had already dropped its endpoint
Unheard(c, s) ==
  LET d == P.chans[c].rcv IN
  IsScript(d) /\ \E i \in DOMAIN P.logs[d] :
    LET x == P.logs[d][i] IN x.op = "dropR" /\ x.ch = c /\ x.res # "pend" /\ x.s1 < s

Judge(p) ==
  LET r == Rec(p) c == r.ch IN
  IF r.res = "pend" THEN Wait
  ELSE IF r.c0 # clk[p] THEN Bad("clock-drift")
  ELSE IF r.inf # (\E j \in 1 .. (pos[p] - 1) : P.logs[p][j].op = "cleanup") THEN Bad("infinite")
  ELSE CASE r.op = "enq" ->
              IF r.res = "ok" THEN
                IF Void(c) THEN If(r.c1 = clk[p], "void-clock")
                ELSE IF ~HasCredit(c) THEN Wait
                ELSE IF r.c1 # CreditClk(p, c) THEN Bad("enq-clock")
                ELSE IF ~SlotTaken(c, r.s1) THEN Bad("overrun")
                ELSE IF Unheard(c, r.s0) THEN Bad("enq-unheard")
                ELSE If(P.stamps[c][ns[c] + 1] = Stamp(p, c, r.n), "internal")
              ELSE IF Void(c) THEN Bad("void-closed")
              ELSE IF rdr[c] < 0 THEN Wait
              ELSE If(r.c1 >= clk[p] /\ r.c1 <= ClosedClk(p, c), "enq-closed-clock")
         [] r.op = "wav" ->
              IF r.res = "ok" THEN
                IF Void(c) THEN If(r.c1 = clk[p], "void-clock")
                ELSE IF ~HasCredit(c) THEN Wait
                ELSE IF ~SlotTaken(c, r.s1) THEN Bad("overrun")
                ELSE If(r.c1 = CreditClk(p, c), "wav-clock")
              ELSE IF Void(c) THEN Bad("void-closed")
              ELSE IF rdr[c] < 0 THEN Wait
              ELSE If(r.c1 >= clk[p] /\ r.c1 <= ClosedClk(p, c), "enq-closed-clock")
         [] r.op \in {"deq", "pkn"} ->
              IF q[c] # <<>> THEN
                IF r.res # "ok" THEN Bad("closed-early")
                ELSE IF r.v # q[c][1][1] THEN Bad("value")
                ELSE IF r.t # q[c][1][2] THEN Bad("stamp")
                ELSE If(r.c1 = Max(clk[p], r.t), "deq-clock")
              ELSE IF sdr[c] < 0 THEN Wait
              ELSE IF r.res = "ok" THEN Bad("phantom")
              ELSE If(r.c1 >= clk[p] /\ r.c1 <= Max(clk[p], sdr[c] + 1), "deq-closed-clock")
         [] r.op = "pk" ->
              IF r.c1 # clk[p] THEN Bad("peek-clock")
              ELSE IF NextT(c) = Unknown THEN Wait
              ELSE IF r.res = "ok" THEN
                IF NextT(c) = INF THEN Bad("phantom")
                ELSE IF r.v # NextV(c) THEN Bad("value")
                ELSE If(r.t = NextT(c), "stamp")
              ELSE IF r.res = "none" THEN
                IF r.t < clk[p] THEN Bad("peek-late") ELSE If(NextT(c) > r.t, "peek-none")
              ELSE If(NextT(c) = INF, "closed-early")
         [] r.op \in {"ev1", "evall", "evany"} ->
              IF r.c1 # clk[p] THEN Bad("peek-clock")
              ELSE IF EvT(r) = Unknown THEN Wait
              ELSE IF r.res = "ok" THEN If(EvT(r) = r.t, "event-ready")
              ELSE IF r.res = "none" THEN IF r.t < 0 THEN Bad("event-closed") ELSE If(EvT(r) > r.t, "event-none")
              ELSE If(EvT(r) = INF, "event-closed")
         [] r.op = "sel" ->
              LET s == Select([i \in DOMAIN r.chs |-> <<r.chs[i]>>]) IN
              IF s[2] = Unknown THEN Wait
              ELSE IF r.res = "closed" THEN IF s[2] # INF THEN Bad("event-closed") ELSE If(r.c1 = clk[p], "sel-clock")
              ELSE IF r.res = "none" THEN
                IF s[2] <= r.t THEN Bad("event-none") ELSE If(r.c1 = Max(clk[p], r.t + 1), "sel-clock")
              ELSE IF r.res = "lost" THEN Bad("phantom")
              ELSE IF s[2] = INF THEN Bad("phantom")
              ELSE IF r.ch # r.chs[s[1]] THEN Bad("sel-order")
              ELSE IF q[c] = <<>> THEN Wait
              ELSE IF r.v # q[c][1][1] THEN Bad("value")
              ELSE IF r.t # q[c][1][2] THEN Bad("stamp")
              ELSE If(r.c1 = Max(clk[p], r.t), "deq-clock")
         [] r.op = "inc" -> If(r.c1 = clk[p] + r.n, "inc")
         [] r.op = "adv" -> If(r.c1 = Max(clk[p], r.n), "advance")
         [] r.op \in {"wait", "tlb"} -> IF r.c1 # clk[p] THEN Bad("view-clock") ELSE ViewOk(p, r)
         [] OTHER -> If(r.c1 = clk[p], "clock-drift")

------------------------------------------------------------------------------
(* Transitions *)

Init ==
  /\ tid \in DOMAIN Runs
  /\ clk = [p \in Procs |-> 0]
  /\ hi = [p \in Procs |-> 0]
  /\ q = [c \in Chans |-> <<>>]
  /\ cr = [c \in Chans |-> IF Cap(c) > 0 THEN [i \in 1..Cap(c) |-> 0] ELSE <<>>]
  /\ ns = [c \in Chans |-> 0]
  /\ sdr = [c \in Chans |-> -1]
  /\ rdr = [c \in Chans |-> IF Void(c) THEN 0 ELSE -1]
  /\ pos = [p \in Procs |-> 1]
  /\ st = [p \in Procs |-> "run"]
  /\ aux = [p \in Procs |-> InitAux(p)]
  /\ err = ""

\* effects on the channels
PutEl(p, c, v, t) ==
  IF Void(c) THEN UNCHANGED <<q, cr, ns>>
  ELSE /\ q' = [q EXCEPT ![c] = Append(@, <<v, Stamp(p, c, t)>>)]
       /\ cr' = IF Bounded(c) THEN [cr EXCEPT ![c] = Tail(@)] ELSE cr
       /\ ns' = [ns EXCEPT ![c] = @ + 1]
TakeEl(c, c1) ==
  /\ q' = [q EXCEPT ![c] = Tail(@)]
  /\ cr' = IF Bounded(c) THEN [cr EXCEPT ![c] = Append(@, c1 + RLat(c))] ELSE cr
  /\ UNCHANGED ns
NoCh == UNCHANGED <<q, cr, ns>>
DropAll(p) ==
  /\ sdr' = [c \in Chans |-> IF P.chans[c].snd = p /\ sdr[c] < 0 THEN Max(clk[p], hi[p]) ELSE sdr[c]]
  /\ rdr' = [c \in Chans |-> IF P.chans[c].rcv = p /\ rdr[c] < 0 THEN Max(clk[p], hi[p]) ELSE rdr[c]]

\* a record that is accepted
StepRec(p) ==
  LET r == Rec(p) c == r.ch IN
  /\ pos' = [pos EXCEPT ![p] = @ + 1]
  /\ clk' = [clk EXCEPT ![p] = r.c1]
  /\ CASE r.op = "enq" /\ r.res = "ok" -> PutEl(p, c, r.v, r.n) /\ UNCHANGED <<sdr, rdr, st>>
       [] r.op = "deq" /\ r.res = "ok" -> TakeEl(c, r.c1) /\ UNCHANGED <<sdr, rdr, st>>
       [] r.op = "sel" /\ r.res = "ok" -> TakeEl(c, r.c1) /\ UNCHANGED <<sdr, rdr, st>>
       [] r.op = "dropS" -> sdr' = [sdr EXCEPT ![c] = clk[p]] /\ UNCHANGED <<rdr, st>> /\ NoCh
       [] r.op = "dropR" -> rdr' = [rdr EXCEPT ![c] = clk[p]] /\ UNCHANGED <<sdr, st>> /\ NoCh
       [] r.op \in {"end", "fail"} ->
            DropAll(p) /\ st' = [st EXCEPT ![p] = IF r.op = "end" THEN "done" ELSE "fail"] /\ NoCh
       [] OTHER -> UNCHANGED <<sdr, rdr, st>> /\ NoCh
  /\ UNCHANGED <<tid, hi, aux, err>>

\* an operation of a library process
Drained(c) == q[c] = <<>> /\ sdr[c] >= 0
LibEnabled(p) ==
  IF aux[p].pc = "fail" THEN TRUE
  ELSE IF aux[p].pc = "refused" THEN \E c \in Chans : P.chans[c].snd = p /\ rdr[c] >= 0
  ELSE LET w == Want(p) c == w.ch IN
  CASE w.op \in {"enq", "wav"} -> HasCredit(c) \/ rdr[c] >= 0
    [] w.op \in {"deq", "pkn"} -> q[c] # <<>> \/ sdr[c] >= 0
    [] w.op = "sel" -> LET s == Select(aux[p].ports) IN
                       IF s[2] = Unknown THEN FALSE
                       ELSE IF s[2] = INF THEN \A i \in DOMAIN aux[p].ports : \E x \in Range(aux[p].ports[i]) : Drained(x)
                       ELSE Queued(aux[p].ports[s[1]])
    [] w.op = "await" -> PmuWriterPast(P.procs[p].writer, w.n)
    [] OTHER -> TRUE

Finish(p, how) ==
  /\ st' = [st EXCEPT ![p] = how] /\ DropAll(p) /\ NoCh
  /\ UNCHANGED <<tid, clk, hi, pos, aux, err>>

\* the implementation may say that the context p belongs to failed, and the receiver of c is done with it at the end
MayFail(p, c) ==
  /\ P.out = "done" => P.procs[p].top \in Range(P.fails)
  /\ LET r == P.chans[c].rcv IN
     IsScript(r) => \E i \in DOMAIN P.logs[r] : \/ P.logs[r][i].op \in {"end", "fail"}
                                               \/ (P.logs[r][i].op = "dropR" /\ P.logs[r][i].ch = c)
StepLib(p) ==
  IF aux[p].pc = "fail" THEN Finish(p, "fail")
  ELSE IF aux[p].pc = "refused" THEN
    LET C == {c \in Chans : P.chans[c].snd = p /\ rdr[c] >= 0} IN
    /\ aux' = [aux EXCEPT ![p].pc = "fail"]
    /\ hi' = [hi EXCEPT ![p] = MaxSet({ClosedClk(p, c) : c \in C})]
    /\ NoCh /\ UNCHANGED <<tid, clk, pos, st, err, sdr, rdr>>
  ELSE LET w == Want(p) c == w.ch
           move(c1, ok, v) == /\ clk' = [clk EXCEPT ![p] = c1]
                              /\ aux' = [aux EXCEPT ![p] = After(p, ok, c1, v)]
                              /\ UNCHANGED <<tid, pos, st, err, sdr, rdr>>
  IN CASE w.op = "end" -> Finish(p, "done")
       [] w.op = "fail" -> Finish(p, "fail")
       [] w.op = "inc" -> move(clk[p] + w.n, TRUE, 0) /\ NoCh /\ UNCHANGED hi
       [] w.op = "adv" -> move(Max(clk[p], w.n), TRUE, 0) /\ NoCh /\ UNCHANGED hi
       [] w.op = "await" -> move(clk[p], TRUE, 0) /\ NoCh /\ UNCHANGED hi
       [] w.op = "sel" ->
            LET s == Select(aux[p].ports) IN
            /\ clk' = [clk EXCEPT ![p] = IF s[2] = INF THEN @ ELSE Max(@, s[2])]
            /\ aux' = [aux EXCEPT ![p] = AfterSel(p, s)]
            /\ NoCh /\ UNCHANGED <<tid, pos, st, err, sdr, rdr>>
            \* while it waits for the last channels to close its clock follows its senders
            \* (and what is queued at the others)
            /\ hi' = IF s[2] = INF
                     THEN LET In == {x \in Chans : P.chans[x].rcv = p} IN
                          [hi EXCEPT ![p] = MaxSet({clk[p]} \cup {IF Drained(x) THEN sdr[x] + 1 ELSE INF : x \in In})]
                     ELSE hi
       [] w.op = "wav" ->
            IF HasCredit(c) THEN move(CreditClk(p, c), TRUE, 0) /\ NoCh /\ UNCHANGED hi
            ELSE move(clk[p], FALSE, 0) /\ NoCh /\ hi' = [hi EXCEPT ![p] = ClosedClk(p, c)]
       [] w.op = "enq" ->
            \* once the receiver is gone an enqueue may go nowhere, or be refused
            \/ HasCredit(c) /\ move(CreditClk(p, c), TRUE, 0) /\ PutEl(p, c, w.v, w.n) /\ UNCHANGED hi
            \/ /\ ~HasCredit(c) /\ move(clk[p], FALSE, 0) /\ NoCh
               /\ hi' = [hi EXCEPT ![p] = ClosedClk(p, c)]
            \/ /\ HasCredit(c) /\ ~Void(c) /\ MayFail(p, c)
               /\ aux' = [aux EXCEPT ![p].pc = "refused"]
               /\ NoCh /\ UNCHANGED <<tid, clk, hi, pos, st, err, sdr, rdr>>
       [] w.op \in {"deq", "pkn"} ->
            IF q[c] # <<>> THEN
              /\ move(Max(clk[p], q[c][1][2]), TRUE, q[c][1][1])
              /\ IF w.op = "deq" THEN TakeEl(c, Max(clk[p], q[c][1][2])) ELSE NoCh
              /\ hi' = IF hi[p] > 0 THEN [hi EXCEPT ![p] = Max(@, q[c][1][2])] ELSE hi
            ELSE
              /\ move(clk[p], FALSE, 0) /\ NoCh
              /\ hi' = [hi EXCEPT ![p] = MaxSet({clk[p], @, sdr[c] + 1})]

Enabled(p) ==
  /\ st[p] = "run"
  /\ IF IsScript(p) THEN HasRec(p) /\ Judge(p).k # "wait" ELSE LibEnabled(p)

Step(p) ==
  IF IsScript(p) THEN
    LET j == Judge(p) IN
    IF j.k = "ok" THEN StepRec(p)
    ELSE err' = j.rule /\ UNCHANGED <<tid, clk, hi, q, cr, ns, sdr, rdr, pos, st, aux>>
  ELSE StepLib(p)

------------------------------------------------------------------------------
(* The end of an execution *)

Group(p) == P.procs[p].top          \* the registered context that p belongs to
Tops == {Group(p) : p \in Procs}
Failed == {t \in Tops : \E p \in Procs : Group(p) = t /\ st[p] = "fail"}
Succ == {p \in Procs : Group(p) \notin Failed}

StuckRule ==  \* the run ended, yet the specification cannot follow some log to its end
  LET S == {p \in Procs : st[p] = "run" /\ IsScript(p) /\ HasRec(p)} IN
  IF S = {} THEN "lib-stuck"
  ELSE LET r == Rec(CHOOSE p \in S : \A x \in S : p <= x) IN
       CASE r.op \in {"deq", "pkn"} /\ r.res = "ok" -> "phantom"
         [] r.op \in {"deq", "pkn", "pk"} -> "closed-early"
         [] r.op \in {"enq", "wav"} /\ r.res = "ok" -> "overrun"
         [] r.op \in {"enq", "wav"} -> "enq-closed-early"
         [] OTHER -> "stuck"

(* The implementation stopped short.                                                                         *)
(*                                                                                                           *)
(* Without flavour inference a blocked context lets its clock follow the context that it waits for, so every  *)
(* query is answered in the end, and only blocking operations can be stuck: the implementation is at fault if *)
(* some unfinished operation can complete, otherwise the program itself has no completion.                    *)
(*                                                                                                           *)
(* With inference the clock stands still in operations on channels that are on no cycle.  A context that      *)
(* waits for a slot of such a channel can therefore keep a query waiting for its clock, while the query keeps  *)
(* the slot from being freed (see known findings).  Other queries must still be answered.                     *)

\* channels whose content can depend on channel c
Succs(c) ==
  {d \in Chans : ~Void(d) /\ ~Void(c) /\
     LET r == P.chans[c].rcv s == P.chans[d].snd IN
     \/ s = r /\ (P.procs[r].decl => \E i \in DOMAIN P.procs[r].conns :
                 c \in Range(P.procs[r].conns[i][1]) /\ d \in Range(P.procs[r].conns[i][2]))
     \/ K(s) = "pmur" /\ P.procs[s].writer = r}
RECURSIVE CloseC(_)
CloseC(S) == LET T == S \cup UNION {Succs(x) : x \in S} IN IF T = S THEN S ELSE CloseC(T)
OnCycle(c) == c \in CloseC(Succs(c))
Still(c) == P.infer /\ Bounded(c) /\ ~OnCycle(c)
Queries == {"pk", "ev1", "evall", "evany", "sel"}
Selects(p) == K(p) \in {"pmur", "pmuw", "dram"}

\* what an unfinished process is trying to do, and whom it waits for
Trying(p) == IF IsScript(p) THEN [op |-> Rec(p).op, chs |-> IF Rec(p).op \in {"ev1", "evall", "evany", "sel", "wait"}
                                                            THEN Range(Rec(p).chs) ELSE {Rec(p).ch}]
             ELSE LET w == Want(p) IN
                  [op |-> w.op, chs |-> IF w.op = "sel" THEN UNION {Range(aux[p].ports[i]) : i \in DOMAIN aux[p].ports}
                                         ELSE {w.ch}]
Unfinished(p) == st[p] = "run" /\ (IF IsScript(p) THEN HasRec(p) ELSE aux[p].pc \notin {"fail", "refused"})
Frozen(p) ==  \* waits for a slot or an element while its clock stands still, or for a clock that is ahead of its own
  /\ Unfinished(p)
  /\ LET w == Trying(p) IN
     \/ w.op \in {"enq", "wav"} /\ \E c \in w.chs : Still(c) /\ ~HasCredit(c)
     \/ w.op = "wait" /\ Rec(p).n > clk[p]
     \/ w.op \in {"deq", "pkn"} /\ \E c \in w.chs : P.infer /\ ~OnCycle(c) /\ q[c] = <<>> /\ sdr[c] < 0
WaitsFor(p) ==
  IF ~Unfinished(p) THEN {}
  ELSE LET w == Trying(p) IN
       IF w.op \in {"enq", "wav"} THEN {P.chans[c].rcv : c \in w.chs}
       ELSE IF w.op \in Queries \cup {"deq", "pkn"} THEN {P.chans[c].snd : c \in w.chs}
       ELSE IF w.op = "wait" THEN w.chs
       ELSE IF w.op = "await" THEN {P.procs[p].writer}
       ELSE {}
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {WaitsFor(x) : x \in S} IN IF T = S THEN S ELSE Reach(T)
Excused == P.infer /\ (\E c \in Chans : Still(c)) /\ (\E p \in Procs : Selects(p))

\* on a channel that is on no cycle an operation waits for the channel alone
AtOnce(c) == P.infer /\ ~OnCycle(c)
PendEnabled(p) ==
  LET r == Rec(p) c == r.ch
      \* operations that wait for a clock on the way
      moving == ~\E o \in Reach({p}) : Frozen(o)
  IN
  CASE r.op \in {"enq", "wav"} -> (HasCredit(c) \/ rdr[c] >= 0) /\ (AtOnce(c) \/ moving)
    [] r.op \in {"deq", "pkn"} -> (q[c] # <<>> \/ sdr[c] >= 0) /\ (AtOnce(c) \/ moving)
    [] r.op \in Queries ->
         \/ moving
         \* (the wait is for the sender's clock, even if it drops the channel meanwhile)
         \/ \A x \in Trying(p).chs : st[P.chans[x].snd] # "run" \/ clk[P.chans[x].snd] >= clk[p]
    [] r.op = "wait" -> ((\A d \in Range(r.chs) : st[d] # "run" \/ clk[d] >= r.n) \/ (~P.infer /\ moving))
    [] OTHER -> TRUE
\* refused by a receiver that is still there: not what happened
Unfounded(p) == ~IsScript(p) /\ st[p] = "run" /\ aux[p].pc = "refused"
LibPending(p) ==
  aux[p].pc \notin {"fail", "refused"} /\
  LET w == Want(p) IN
  w.op = "await" \/ (w.op = "sel" /\ \E i \in DOMAIN aux[p].ports : Queued(aux[p].ports[i]))
HungAt ==
  IF Excused THEN {p \in Procs : Unfounded(p)}
  ELSE {p \in Procs :
          /\ st[p] = "run"
          /\ \/ Unfounded(p)
             \/ IF IsScript(p) THEN HasRec(p) => (Rec(p).res = "pend" => PendEnabled(p)) ELSE LibPending(p)}
Hung == HungAt # {}
\* the implementation stopped short, and would not have done so without inference
Known ==
  /\ P.out # "done" /\ P.infer /\ ~Hung
  /\ \E p \in Procs :
       /\ st[p] = "run"
       /\ IF ~IsScript(p) THEN LibPending(p)
          ELSE HasRec(p) /\ Rec(p).res = "pend" /\
               LET r == Rec(p) c == r.ch IN
               CASE r.op \in {"enq", "wav"} -> HasCredit(c) \/ rdr[c] >= 0
                 [] r.op \in {"deq", "pkn"} -> q[c] # <<>> \/ sdr[c] >= 0
                 [] OTHER -> TRUE

Verdict ==
  IF P.out = "panic" \/ P.out = "initpanic" THEN "crash"
  ELSE IF P.out = "init" THEN "init-error"
  ELSE IF P.out # "done" THEN IF Hung THEN "hang" ELSE ""
  ELSE IF \E p \in Procs : st[p] = "run" THEN StuckRule
  ELSE IF \E p \in Procs : P.procs[p].runs # 1 THEN "run-count"
  ELSE IF \E p \in Procs : P.procs[p].inits # 1 THEN "init-count"
  ELSE IF P.early THEN "init-late"
  ELSE IF \E t \in Range(P.fails) : t \notin Failed THEN "fail-spurious"
  ELSE IF \E t \in Failed : t \notin Range(P.fails) THEN "fail-missed"
  ELSE IF Len(P.fails) # Cardinality(Failed) THEN "fail-twice"
  ELSE IF P.passed # (Failed = {}) THEN "passed"
  ELSE IF \E p \in Procs : ~P.procs[p].fininf THEN "not-infinite"
  ELSE IF \E p \in Procs : P.procs[p].fin >= 0 /\ ~(P.procs[p].fin >= clk[p] /\ P.procs[p].fin <= Max(clk[p], hi[p]))
       THEN "final-clock"
  ELSE IF Succ = {} THEN IF P.elapsed # -1 THEN "elapsed" ELSE ""
  ELSE IF \A p \in Succ : P.procs[p].fin >= 0
       THEN IF P.elapsed # MaxSet({P.procs[p].fin : p \in Succ}) THEN "elapsed" ELSE ""
       ELSE IF P.elapsed < MaxSet({clk[p] : p \in Succ}) \/ P.elapsed > MaxSet({Max(clk[p], hi[p]) : p \in Succ})
            THEN "elapsed" ELSE ""

Where == LET S == IF P.out # "done" /\ Hung THEN HungAt ELSE {p \in Procs : st[p] = "run"} IN
         IF S = {} THEN 0 ELSE CHOOSE p \in S : \A x \in S : p <= x

EnabledNow == {p \in Procs : Enabled(p)}
\* in an execution that stopped short, answers about what would have come later
Foreseeing ==
  {p \in Procs : /\ P.out # "done" /\ st[p] = "run" /\ IsScript(p) /\ HasRec(p)
                 /\ LET r == Rec(p) IN
                    \/ r.op \in Queries /\ r.res \in {"none", "closed"}
                    \/ r.op \in {"ev1", "evall", "evany"} /\ r.res = "ok"
                    \/ r.op = "sel" /\ r.res = "ok" /\ q[r.ch] # <<>> /\ q[r.ch][1] = <<r.v, r.t>>}
Lowest(S) == CHOOSE x \in S : \A y \in S : x <= y
\* nothing is left to follow
Conclude == /\ err' = IF Verdict = "" THEN "accept" ELSE Verdict
            /\ UNCHANGED <<tid, clk, hi, q, cr, ns, sdr, rdr, pos, st, aux>>

Next ==
  /\ err = ""
  /\ LET E == EnabledNow F == Foreseeing IN
     IF E # {} THEN LET p == Lowest(E) IN Step(p) /\ (err' # "" => PrintT(<<"REJECT", tid, err', p, pos[p]>>))
     ELSE IF F # {} THEN StepRec(Lowest(F))
     ELSE /\ Conclude
          /\ IF err' = "accept" THEN PrintT(<<IF Known THEN "KNOWN" ELSE "ACCEPT", tid>>)
             ELSE PrintT(<<"REJECT", tid, err', Where, IF Where = 0 THEN 0 ELSE pos[Where]>>)

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* Properties of the network itself, checked along every behaviour that is followed *)

\* no more elements in flight than the capacity allows; credits and elements are conserved
Conserved ==
  \A c \in Chans : Bounded(c) => Len(q[c]) + Len(cr[c]) = Cap(c)
\* elements are stamped no earlier than the latency after time 0
Causal == \A c \in Chans : \A i \in DOMAIN q[c] : q[c][i][2] >= Lat(c)
=============================================================================
