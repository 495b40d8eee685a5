------------------------------- MODULE TimeAlg -------------------------------
(***************************************************************************)
(* Simulation times, event times and clocks.                               *)
(*                                                                         *)
(* A time is a tick count and a mark that says whether its owner has        *)
(* finished ("infinite").  Numbers are written <<a, d>> for a * 2^40 + d,   *)
(* so that TLC can reason about counts up to 2^64 - 1.                     *)
(*                                                                         *)
(* MODE = "laws": TLC checks that the definitions are lawful on a universe  *)
(* of times.  MODE = "gen": the universe is written as cases for the        *)
(* implementation.  MODE = "judge": the answers of the implementation are   *)
(* compared with the definitions; a clock's history is followed step by     *)
(* step.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Mode == IOEnv.MODE
Big == IOEnv.BIG = "1"

------------------------------------------------------------------------------
(* Tick counts *)
NLeq(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
NLess(x, y) == NLeq(x, y) /\ x # y
NAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
NSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
NOne == <<0, 1>>
NZero == <<0, 0>>
NLast == <<16777216, -1>>   \* 2^64 - 1
Fits(x) == NLeq(x, NLast)

(* Times *)
Tick(t) == <<t[1], t[2]>>
Inf(t) == t[3]
Mk(n, i) == <<n[1], n[2], i>>
Infinite == Mk(NZero, TRUE)
Cmp(x, y) ==
  IF Inf(x) /\ Inf(y) THEN 0
  ELSE IF Inf(x) THEN 1
  ELSE IF Inf(y) THEN -1
  ELSE IF Tick(x) = Tick(y) THEN 0
  ELSE IF NLess(Tick(x), Tick(y)) THEN -1 ELSE 1
Leq(x, y) == Cmp(x, y) <= 0
Same(x, y) == Cmp(x, y) = 0
TMax(x, y) == IF Leq(x, y) THEN y ELSE x
TMin(x, y) == IF Leq(x, y) THEN x ELSE y
Add(x, y) == Mk(NAdd(Tick(x), Tick(y)), Inf(x) \/ Inf(y))
AddTicks(x, n) == Mk(NAdd(Tick(x), n), Inf(x))

(* Event times: the earliest moment at which the event may happen *)
Key(e) ==
  CASE e.k = "ready" -> e.t
    [] e.k = "none" -> AddTicks(e.t, NOne)
    [] OTHER -> Infinite
ECmp(x, y) == Cmp(Key(x), Key(y))

(* Combined events.  A component that is ready at t happens at t; one that is
   nothing until t happens at an unknown moment after t, or never; one that is
   closed never happens. *)
Fin(es) == {e \in es : e.k = "ready"}
AllOk(es, r) ==   \* what may be said of "all of them have happened"
  CASE r.k = "closed" -> \E e \in es : e.k = "closed" \/ Inf(Key(e))
    [] r.k = "ready" -> /\ \A e \in es : e.k = "ready"
                        /\ \E e \in es : Same(e.t, r.t)
                        /\ \A e \in es : Leq(e.t, r.t)
    [] r.k = "none" -> \* nothing at or before r.t: some component happens only after it
                       /\ \E e \in es : Cmp(Key(e), r.t) > 0
    [] OTHER -> FALSE
AllExact(es, r) ==  \* ... and must be said
  /\ ((\A e \in es : e.k = "ready") => r.k = "ready")
  /\ ((\E e \in es : e.k = "closed") => r.k \in {"closed", "none"})
  \* the bound makes progress: it is not before every component's own bound
  /\ (r.k = "none" => \E e \in es : Leq(e.t, r.t))
AnyOk(es, r) ==
  CASE r.k = "closed" -> \A e \in es : e.k = "closed" \/ Inf(Key(e))
    [] r.k = "ready" -> \E e \in es : /\ e.k = "ready" /\ Same(e.t, r.t)
                                      /\ \A o \in es : Leq(e.t, Key(o))
    [] r.k = "none" -> \A e \in es : Cmp(Key(e), r.t) > 0
    [] OTHER -> FALSE
AnyExact(es, r) ==
  /\ ((es # {} /\ \A e \in es : e.k = "closed") => r.k = "closed")
  \* (at the same moment as a component that may happen then, the weaker answer will do)
  /\ ((\E e \in es : e.k = "ready" /\ \A o \in es : IF o.k = "ready" THEN Leq(e.t, o.t) ELSE Cmp(e.t, Key(o)) < 0) => r.k = "ready")
  /\ (r.k = "none" => \E e \in es : e.k = "none" /\ Leq(e.t, r.t))

------------------------------------------------------------------------------
(* Clocks: the operations of a clock's owner *)
Advance(c, t) ==   \* to a time; never backwards, and a finished clock stays as it is
  IF Inf(c) THEN c
  ELSE IF Inf(t) THEN Mk(Tick(c), TRUE)
  ELSE IF NLess(Tick(c), Tick(t)) THEN t ELSE c
\* what the clock may be after an operation; what happens to the tick count of a finished
\* clock, or of one that is advanced to an infinite time, is not specified further
ClockStep(c, o) ==
  CASE o.op = "inc" -> {AddTicks(c, Tick(o.t))} \cup (IF Inf(c) THEN {c} ELSE {})
    [] o.op = "adv" -> {Advance(c, o.t)} \cup (IF ~Inf(c) /\ Inf(o.t) THEN {Mk(Tick(TMax(Mk(Tick(c), FALSE), Mk(Tick(o.t), FALSE))), TRUE)} ELSE {})
    [] o.op = "end" -> {Mk(Tick(c), TRUE)}

------------------------------------------------------------------------------
(* The universe *)
Ticks == {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<0, 7>>, <<0, 8>>, <<1, -1>>, <<1, 0>>, <<1, 1>>,
          <<4194304, 0>>, <<4194304, 5>>, <<8388607, 3>>, <<8388608, -1>>, <<8388608, 0>>, <<16777215, 7>>}
           \cup (IF Big THEN {<<0, 3>>, <<0, 255>>, <<0, 256>>, <<0, 65535>>, <<2, 0>>, <<3, -3>>, <<4194304, -1>>,
                              <<4194305, 0>>, <<12582912, 1>>, NLast} ELSE {})
Times == {Mk(n, i) : n \in Ticks, i \in BOOLEAN}
EvTicks == {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<0, 3>>, <<4194304, 0>>, <<4194304, 1>>, <<8388608, -1>>, <<8388608, 0>>}
EvTimes == {Mk(n, FALSE) : n \in EvTicks} \cup {Infinite, Mk(<<0, 2>>, TRUE)}
Ev(k, t) == [k |-> k, t |-> t]
Events == {Ev(k, t) : k \in {"ready", "none"}, t \in EvTimes} \cup {Ev("closed", Infinite)}
\* components of combined events are finite, as channels report them
SmallEvs == {Ev(k, Mk(<<0, d>>, FALSE)) : k \in {"ready", "none"}, d \in 0 .. (IF Big THEN 4 ELSE 3)}
              \cup {Ev("closed", Infinite)}
SomeEvs == {Ev(k, Mk(<<0, d>>, FALSE)) : k \in {"ready", "none"}, d \in (IF Big THEN 0 .. 2 ELSE {0, 1, 2})}
              \cup {Ev("closed", Infinite)}
Combs(zz) == UNION {[1 .. n -> SmallEvs] : n \in 1 .. 3} \cup [1 .. 4 -> SomeEvs]
          \cup (IF Big THEN [1 .. 4 -> SmallEvs] ELSE {})
ClockOps == {[op |-> "inc", t |-> Mk(n, FALSE)] : n \in {<<0, 0>>, <<0, 1>>, <<1, 0>>}}
              \cup {[op |-> "adv", t |-> Mk(n, FALSE)] : n \in {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<1, 0>>, <<1, 2>>}}
              \cup {[op |-> "adv", t |-> t] : t \in {Infinite, Mk(<<0, 5>>, TRUE)}}
              \cup {[op |-> "end", t |-> Mk(NZero, FALSE)]}
Hists(zz) == UNION {[1 .. n -> ClockOps] : n \in 1 .. (IF Big THEN 4 ELSE 3)}

\* each addition in these cases stays below 2^64
PairOk(x, y) == Fits(NAdd(Tick(x), Tick(y)))
Cases(what) ==
  CASE what = "pair" -> {[kind |-> "pair", x |-> x, y |-> y] : <<x, y>> \in {p \in Times \X Times : PairOk(p[1], p[2])}}
    [] what = "evpair" -> {[kind |-> "evpair", x |-> x, y |-> y] : x \in Events, y \in Events}
    [] what = "comb" -> {[kind |-> "comb", evs |-> e] : e \in Combs(0)}
    [] what = "hist" -> {[kind |-> "hist", ops |-> o] : o \in Hists(0)}

------------------------------------------------------------------------------
(* The answers *)
J == IF Mode = "judge" THEN ndJsonDeserialize(IOEnv.IN) ELSE <<>>
IsT(r, t) == r[1] = t[1] /\ r[2] = t[2] /\ r[3] = t[3]
Order(r, c) == /\ r.cmp = c /\ r.pcmp = c
               /\ r.lt = (c < 0) /\ r.le = (c <= 0) /\ r.gt = (c > 0) /\ r.ge = (c >= 0)
\* of equal times (both infinite) either may be returned
IsSame(r, x, y) == IsT(r, x) \/ IsT(r, y)
PairRule(c) ==
  LET x == c.x  y == c.y  r == c.r  o == Cmp(x, y)
  IN IF ~(Order(r, o) /\ r.eq = (o = 0) /\ r.ne = (o # 0)) THEN "order"
     ELSE IF ~( /\ \A m \in {r.max, r.smax, r.imax} : IsSame(m, x, y) /\ Leq(x, m) /\ Leq(y, m)
                /\ \A m \in {r.min, r.smin, r.imin} : IsSame(m, x, y) /\ Leq(m, x) /\ Leq(m, y)) THEN "max-min"
     ELSE IF ~(IsT(r.add, Add(x, y)) /\ IsT(r.adda, Add(x, y))) THEN "add"
     ELSE IF ~(IsT(r.addn, AddTicks(x, Tick(y))) /\ IsT(r.addna, AddTicks(x, Tick(y)))) THEN "add-ticks"
     ELSE IF ~(IF NLeq(Tick(y), Tick(x)) THEN r.sub # <<>> /\ IsT(r.sub, Mk(NSub(Tick(x), Tick(y)), Inf(x)))
               ELSE r.sub = <<>> \/ (Inf(x) /\ r.sub[3])) THEN "sub"
     ELSE IF ~(/\ IsT(r.new, Mk(Tick(y), FALSE)) /\ IsT(r.from, Mk(Tick(y), FALSE))
               /\ r.inf[3] /\ IsT(r.zero, Mk(NZero, FALSE)) /\ IsT(r.setinf, Mk(Tick(x), TRUE))
               /\ r.isinf = Inf(x) /\ <<r.tick[1], r.tick[2]>> = Tick(x) /\ IsT(r.serde, x)) THEN "make"
     \* an element keeps its time when converted, and only ever moves to a later one
     ELSE IF ~(/\ IsSame(r.upd, x, y) /\ Leq(x, r.upd) /\ Leq(y, r.upd)
               /\ IsT(r.conv, x) /\ IsT(r.tryconv, x) /\ r.kept) THEN "element"
     ELSE ""
EvRule(c) ==
  LET o == ECmp(c.x, c.y)  r == c.r
  IN IF ~Order(r, o) THEN "event-order"
     ELSE IF ~(/\ r.min \in {c.x, c.y} /\ ECmp(r.min, c.x) <= 0 /\ ECmp(r.min, c.y) <= 0
               /\ r.max \in {c.x, c.y} /\ ECmp(r.max, c.x) >= 0 /\ ECmp(r.max, c.y) >= 0) THEN "event-min"
     ELSE ""
CombRule(c) ==
  LET es == {c.evs[k] : k \in DOMAIN c.evs}
  IN IF ~AllOk(es, c.r.all) THEN "all"
     ELSE IF ~AllExact(es, c.r.all) THEN "all-weak"
     ELSE IF ~AnyOk(es, c.r.any) THEN "any"
     ELSE IF ~AnyExact(es, c.r.any) THEN "any-weak"
     ELSE ""

VARIABLES
  i,     \* the case
  pos,   \* next step of a history
  c,     \* the clock
  seen   \* what was last seen through a view
vars == <<i, pos, c, seen>>

Reject(rule) == PrintT(<<"REJECT", i, rule>>)
Judge(rule) == /\ (IF rule = "" THEN TRUE ELSE Reject(rule))
               /\ pos' = -1 /\ UNCHANGED <<i, c, seen>>

\* a step of a clock's history: what its owner and its views see afterwards
HistRule(s, old) ==
  IF ~(IsT(s.tlb, s.tick) /\ Same(s.nested, s.tick)) THEN "view"
  ELSE IF ~(Leq(old, s.tlb)) THEN "view-back"
  ELSE IF ~(IsT(s.wait, s.tick) /\ Same(s.nwait, s.tick)) THEN "wait"
  ELSE ""
Hist ==
  IF pos <= Len(J[i].ops)
  THEN LET s == J[i].r.steps[pos]
           ns == {n \in ClockStep(c, J[i].ops[pos]) : IsT(s.tick, n)}
           rule == IF ns = {} THEN "clock" ELSE HistRule(s, seen)
       IN IF rule = "" THEN pos' = pos + 1 /\ c' \in ns /\ seen' = s.tlb /\ i' = i
          ELSE Judge(rule)
  ELSE Judge(IF IsT(J[i].r.dropped, Mk(Tick(c), TRUE)) THEN "" ELSE "dropped")

Init == /\ i \in (IF Mode = "judge" THEN 1 .. Len(J) ELSE {0})
        /\ pos = 1 /\ c = Mk(NZero, FALSE) /\ seen = Mk(NZero, FALSE)
Next ==
  /\ Mode = "judge" /\ pos > 0
  /\ CASE J[i].crash -> Judge("crash")
       [] J[i].kind = "pair" -> Judge(PairRule(J[i]))
       [] J[i].kind = "evpair" -> Judge(EvRule(J[i]))
       [] J[i].kind = "comb" -> Judge(CombRule(J[i]))
       [] J[i].kind = "hist" -> Hist
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* The definitions are lawful *)
Laws(zz) ==
  /\ \A x \in Times : Cmp(x, x) = 0
  /\ \A x \in Times, y \in Times :
       /\ Cmp(x, y) = -Cmp(y, x)
       /\ Leq(x, TMax(x, y)) /\ Leq(TMin(x, y), x)
       /\ Same(TMax(x, y), TMax(y, x)) /\ Same(TMin(x, y), TMin(y, x))
       /\ Add(x, y) = Add(y, x)
       /\ (Leq(x, y) => Leq(AddTicks(x, NOne), AddTicks(y, NOne)))
       /\ Inf(Add(x, y)) = (Inf(x) \/ Inf(y))
  /\ \A x \in Times, y \in Times, z \in Times : Leq(x, y) /\ Leq(y, z) => Leq(x, z)
  /\ \A x \in Events, y \in Events, z \in Events :
       /\ ECmp(x, y) = -ECmp(y, x)
       /\ (ECmp(x, y) <= 0 /\ ECmp(y, z) <= 0 => ECmp(x, z) <= 0)
  \* what may be said of combined events never contradicts what may happen
  /\ \A e \in [1 .. 2 -> SmallEvs] :
       LET es == {e[1], e[2]}
       IN \A r \in SmallEvs :
            /\ (r.k = "ready" /\ AllOk(es, r) => \A e2 \in es : e2.k = "ready")
            /\ (r.k = "none" /\ AnyOk(es, r) => AllOk(es, r))
  \* a clock never moves backwards and stays finished
  /\ \A x \in Times, o \in ClockOps : \A y \in ClockStep(x, o) :
       /\ Leq(x, y) /\ (Inf(x) => Inf(y)) /\ NLeq(Tick(x), Tick(y))
ASSUME Mode = "laws" => Laws(0)
ASSUME Mode = "gen" => \A w \in {"pair", "evpair", "comb", "hist"} :
                          ndJsonSerialize(IOEnv.OUT \o "-" \o w \o ".ndjson", SetToSeq(Cases(w)))
==============================================================================
