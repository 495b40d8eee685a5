----------------------------- MODULE Datastore ------------------------------
(***************************************************************************)
(* The time-travelling store: writes are recorded with their times, and a   *)
(* read at address a and time t returns the value of the latest write to a  *)
(* with time at or before t, however many later writes are recorded.        *)
(*                                                                         *)
(* MODE = "laws": TLC explores the store itself (all histories of at most   *)
(* Depth writes) and checks its properties.  MODE = "gen": all these        *)
(* histories are written as cases for the implementation.  MODE = "judge":  *)
(* TLC follows each executed history and compares every answer with the     *)
(* store of the specification.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Mode == IOEnv.MODE
Depth == IF IOEnv.BIG = "1" THEN 4 ELSE 3

\* times as in TimeAlg: <<a, d, infinite>>
TLess(x, y) == IF x[3] THEN FALSE ELSE IF y[3] THEN TRUE
               ELSE x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
TLeq(x, y) == ~TLess(y, x)

J == IF Mode = "judge" THEN ndJsonDeserialize(IOEnv.IN) ELSE <<>>

VARIABLES
  i,      \* the case, when judging
  conf,   \* the configuration: capacity, wrap-around, default value
  mem,    \* the writes that were accepted, in order: <<address, time, value>>
  n,      \* operations so far
  bad     \* the rule that is broken
vars == <<i, conf, mem, n, bad>>

------------------------------------------------------------------------------
(* The store *)
InRange(a) == a < conf.cap \/ conf.mod
At(a) == IF a < conf.cap THEN a ELSE a % conf.cap
Of(a) == {k \in DOMAIN mem : mem[k][1] = At(a)}
Accepts(a, t) == InRange(a) /\ \A k \in Of(a) : TLess(mem[k][2], t)
Write(a, t, v) == mem' = IF Accepts(a, t) THEN Append(mem, <<At(a), t, v>>) ELSE mem
Refused == -1
Default == 0
Read(a, t) ==
  IF ~InRange(a) THEN Refused
  ELSE LET S == {k \in Of(a) : TLeq(mem[k][2], t)}
       IN IF S = {} THEN IF conf.dflt THEN Default ELSE Refused
          ELSE mem[CHOOSE k \in S : \A j \in S : TLeq(mem[j][2], mem[k][2])][3]

------------------------------------------------------------------------------
(* Exploring it *)
Confs == {[cap |-> c, mod |-> m, dflt |-> d] : c \in {2}, m \in BOOLEAN, d \in BOOLEAN}
Addrs == 0 .. 2
WTimes == {<<0, d, FALSE>> : d \in 0 .. 2}
RTimes == {<<0, d, FALSE>> : d \in 0 .. 3} \cup {<<0, 0, TRUE>>}
WOps(k) == {[op |-> "w", a |-> a, t |-> t, v |-> 100 + k] : a \in Addrs, t \in WTimes}
Explore ==
  /\ n < Depth
  /\ \E w \in WOps(n) : Write(w.a, w.t, w.v)
  /\ n' = n + 1 /\ UNCHANGED <<i, conf, bad>>

\* a read never sees a write of the future, and sees a write of its own time
NoFuture == Mode = "laws" =>
  \A k \in DOMAIN mem : \A t \in RTimes :
    LET v == Read(mem[k][1], t)
    IN /\ (v = mem[k][3] => TLeq(mem[k][2], t))
       /\ (t = mem[k][2] => v = mem[k][3])
\* each address is a separate history
Separate == Mode = "laws" =>
  \A k \in DOMAIN mem, j \in DOMAIN mem : k < j /\ mem[k][1] = mem[j][1] => TLess(mem[k][2], mem[j][2])
\* later writes change no answer about the past
Stable == [][Mode = "laws" =>
               \A a \in Addrs : \A t \in RTimes :
                 Read(a, t)' # Read(a, t) =>
                   /\ Len(mem') = Len(mem) + 1
                   /\ mem'[Len(mem')][1] = At(a) /\ TLeq(mem'[Len(mem')][2], t)]_vars

------------------------------------------------------------------------------
(* Cases *)
Case(f, o) ==
  [kind |-> "store", cap |-> f.cap, mod |-> f.mod, dflt |-> f.dflt, ops |-> o,
   reads |-> SetToSeq({<<a, t>> : a \in Addrs, t \in RTimes})]
Ops(d) == {[k \in 1 .. d |-> [op |-> "w", a |-> o[k][1], t |-> o[k][2], v |-> 100 + k]] : o \in [1 .. d -> Addrs \X WTimes]}
Cases(z) == {Case(f, o) : f \in Confs, o \in Ops(Depth)}
         \cup {Case(f, <<[op |-> "n", a |-> 0, t |-> <<0, 0, FALSE>>, v |-> 0]>>) : f \in Confs}

(* Judging: one operation at a time, with all reads after it *)
Judging ==
  /\ bad = "" /\ n < Len(J[i].ops)
  /\ n' = n + 1 /\ UNCHANGED <<i, conf>>
  /\ IF J[i].crash THEN PrintT(<<"REJECT", i, "crash">>) /\ bad' = "crash" /\ UNCHANGED mem ELSE
     LET o == J[i].ops[n + 1]
         s == J[i].r.steps[n + 1]
     IN /\ (IF o.op = "w" THEN Write(o.a, o.t, o.v) ELSE UNCHANGED mem)
        /\ bad' = IF o.op = "w" /\ s.ok # Accepts(o.a, o.t) THEN IF s.ok THEN "write-accepted" ELSE "write-refused"
                  ELSE IF \E k \in DOMAIN J[i].reads : s.reads[k] # Read(J[i].reads[k][1], J[i].reads[k][2])'
                       THEN "read"
                  ELSE ""
        /\ (IF bad' # "" THEN PrintT(<<"REJECT", i, bad'>>) ELSE TRUE)

Init ==
  /\ mem = <<>> /\ n = 0 /\ bad = ""
  /\ CASE Mode = "laws" -> i = 0 /\ conf \in Confs
       [] Mode = "gen" -> i = 0 /\ conf = 0
       [] OTHER -> i \in 1 .. Len(J) /\ conf = [cap |-> J[i].cap, mod |-> J[i].mod, dflt |-> J[i].dflt]
Next == IF Mode = "laws" THEN Explore ELSE IF Mode = "judge" THEN Judging ELSE FALSE
Spec == Init /\ [][Next]_vars
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUT \o "-store.ndjson", SetToSeq(Cases(0)))
==============================================================================
