-------------------------------- MODULE Init --------------------------------
(***************************************************************************)
(* Building and initializing programs: which programs are accepted, which   *)
(* error is returned for the others, and what has run when.                 *)
(*                                                                         *)
(* A program is built step by step: contexts are made, channels are made    *)
(* and attached, contexts are registered (directly, or as members of one    *)
(* registered composite), and the program is initialized and run.           *)
(*                                                                         *)
(* MODE = "laws": TLC explores all ways of building a program within bounds *)
(* and checks that initialization is refused exactly if something offends.  *)
(* MODE = "gen": the resulting programs are written as cases.               *)
(* MODE = "judge": what the implementation answered is compared.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Mode == IOEnv.MODE
BigUniverse == IOEnv.BIG = "1"
J == IF Mode = "judge" THEN ndJsonDeserialize(IOEnv.IN) ELSE <<>>

VARIABLES
  i,      \* the case, when judging
  prog,   \* the program that is built: ctxs (where each is registered) and chans
  phase,  \* "build", "ready", "refused", "done"
  inits, runs   \* how often each context was initialized and run
vars == <<i, prog, phase, inits, runs>>

------------------------------------------------------------------------------
(* What offends *)
End(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]   \* the context that an endpoint is attached to: the last one
NoSend(p) == {c \in DOMAIN p.chans : End(p.chans[c].snd) = 0}
NoRecv(p) == {c \in DOMAIN p.chans : ~p.chans[c].void /\ End(p.chans[c].rcv) = 0}
Ends(p) == {End(p.chans[c].snd) : c \in DOMAIN p.chans} \cup {End(p.chans[c].rcv) : c \in DOMAIN p.chans}
Unreg(p) == {x \in DOMAIN p.ctxs : p.ctxs[x] = "out" /\ x \in Ends(p)}
WellFormed(p) == NoSend(p) = {} /\ NoRecv(p) = {} /\ Unreg(p) = {}
In(p) == {x \in DOMAIN p.ctxs : p.ctxs[x] # "out"}
Children(p) == Cardinality({x \in DOMAIN p.ctxs : p.ctxs[x] = "reg"})
                 + (IF \E x \in DOMAIN p.ctxs : p.ctxs[x] = "sub" THEN 1 ELSE 0)

------------------------------------------------------------------------------
(* Building *)
MaxCtx == IF BigUniverse THEN 3 ELSE 2
MaxChan == 2
Attach(n) == {<<>>} \cup {<<x>> : x \in 1 .. n}
ChanSet(n) == {[void |-> FALSE, cap |-> k, snd |-> s, rcv |-> r] : k \in {-1, 1}, s \in Attach(n), r \in Attach(n)}
                \cup {[void |-> TRUE, cap |-> -1, snd |-> s, rcv |-> <<>>] : s \in Attach(n)}
                \* endpoints may be attached again
                \cup (IF n < 2 THEN {} ELSE {[void |-> FALSE, cap |-> -1, snd |-> <<1, 2>>, rcv |-> <<2, 1>>]})
AddCtx == /\ phase = "build" /\ prog.chans = <<>> /\ Len(prog.ctxs) < MaxCtx
          /\ \E w \in {"reg", "sub", "out"} : prog' = [prog EXCEPT !.ctxs = Append(@, w)]
          /\ inits' = Append(inits, 0) /\ runs' = Append(runs, 0)
          /\ UNCHANGED <<i, phase>>
AddChan == /\ phase = "build" /\ prog.ctxs # <<>> /\ Len(prog.chans) < MaxChan
           /\ \E c \in ChanSet(Len(prog.ctxs)) : prog' = [prog EXCEPT !.chans = Append(@, c)]
           /\ UNCHANGED <<i, phase, inits, runs>>
Initialize ==
  /\ phase = "build"
  /\ IF WellFormed(prog)
     THEN /\ phase' = "ready"
          /\ inits' = [x \in DOMAIN inits |-> IF x \in In(prog) THEN 1 ELSE 0]
     ELSE phase' = "refused" /\ UNCHANGED inits
  /\ UNCHANGED <<i, prog, runs>>
RunOne == /\ phase = "ready"
          /\ \E x \in In(prog) : runs[x] = 0 /\ runs' = [runs EXCEPT ![x] = 1]
          /\ UNCHANGED <<i, prog, phase, inits>>
Finish == /\ phase = "ready" /\ \A x \in In(prog) : runs[x] = 1
          /\ phase' = "done" /\ UNCHANGED <<i, prog, inits, runs>>

OnceEach == /\ \A x \in DOMAIN runs : runs[x] <= 1 /\ (runs[x] = 1 => inits[x] = 1 /\ phase \in {"ready", "done"})
            /\ (phase = "done" => \A x \in DOMAIN runs : runs[x] = (IF x \in In(prog) THEN 1 ELSE 0))
RefusedIffOffends ==
  /\ (phase = "refused" => NoSend(prog) \cup NoRecv(prog) \cup Unreg(prog) # {} /\ \A x \in DOMAIN inits : inits[x] = 0)
  /\ (phase \in {"ready", "done"} => NoSend(prog) \cup NoRecv(prog) \cup Unreg(prog) = {})

------------------------------------------------------------------------------
(* Cases *)
Progs(n, m) == {[kind |-> "init", ctxs |-> x, chans |-> c, infer |-> f] :
                  x \in [1 .. n -> {"reg", "sub", "out"}], c \in [1 .. m -> ChanSet(n)], f \in BOOLEAN}
Cases(z) == UNION {Progs(1, m) : m \in 0 .. 2} \cup UNION {Progs(2, m) : m \in 0 .. 2}
           \cup (IF BigUniverse THEN Progs(3, 1) \cup Progs(3, 2) ELSE Progs(3, 1))
LatCases(z) == {[kind |-> "lat", lat |-> l, rlat |-> r, cap |-> k] : l \in 0 .. 2, r \in 0 .. 2, k \in {-1, 1, 2}}

(* Judging *)
Const(s, p, in) == Len(s) = Len(p.ctxs) /\ \A x \in DOMAIN s : s[x] = IF x \in In(p) THEN in ELSE 0
Rule(c) ==
  LET r == c.r
  IN IF c.crash THEN "panic"
     ELSE IF c.kind = "lat" THEN IF r.ok = (c.lat > 0 /\ c.rlat > 0) THEN "" ELSE "latency"
     ELSE IF r.res = "panic" THEN "panic"
     ELSE IF ~r.distinct THEN "ids"
     ELSE IF r.children # Children(c) THEN "children"
     ELSE IF WellFormed(c)
          THEN IF r.res # "ok" THEN "refused"
               ELSE IF ~Const(r.inits, c, 1) \/ ~Const(r.inits2, c, 1) THEN "init-count"
               ELSE IF ~Const(r.early, c, 0) THEN "early"
               ELSE IF ~Const(r.runs, c, 1) THEN "run-count"
               ELSE IF ~r.passed THEN "passed"
               ELSE ""
          ELSE IF r.res = "ok" THEN "accepted"
               ELSE IF ~Const(r.runs, c, 0) THEN "ran"
               ELSE IF ~(\/ r.res = "nosend" /\ r.at \in NoSend(c)
                         \/ r.res = "norecv" /\ r.at \in NoRecv(c)
                         \/ r.res = "unreg" /\ r.at \in Unreg(c)) THEN "wrong-error"
               ELSE ""

Init == /\ prog = [ctxs |-> <<>>, chans |-> <<>>] /\ phase = "build" /\ inits = <<>> /\ runs = <<>>
        /\ i \in IF Mode = "judge" THEN 1 .. Len(J) ELSE {0}
Judging == /\ phase = "build" /\ phase' = "done"
           /\ (IF Rule(J[i]) = "" THEN TRUE ELSE PrintT(<<"REJECT", i, Rule(J[i])>>))
           /\ UNCHANGED <<i, prog, inits, runs>>
Next == IF Mode = "laws" THEN AddCtx \/ AddChan \/ Initialize \/ RunOne \/ Finish
        ELSE IF Mode = "judge" THEN Judging ELSE FALSE
Spec == Init /\ [][Next]_vars
ASSUME Mode = "gen" => /\ ndJsonSerialize(IOEnv.OUT \o "-init.ndjson", SetToSeq(Cases(0)))
                       /\ ndJsonSerialize(IOEnv.OUT \o "-lat.ndjson", SetToSeq(LatCases(0)))
==============================================================================
