------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* Families of small programs, numbered.  A program is a tuple of choices:  *)
(* the configuration of its channels and, per context, a script of so many  *)
(* operations over the family's alphabet; program number n is the tuple     *)
(* that n spells in mixed radix, so that every program of a family has      *)
(* exactly one number and any part of the family can be written down        *)
(* without enumerating the rest.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* operations: name, channel or context (-1: none), argument
Alphabet(f) ==
  CASE f = "pair" ->
         << << <<"yield", -1, 0>>, <<"enq", 0, 0>>, <<"enq", 0, 5>>, <<"inc", -1, 2>>, <<"wav", 0, 0>>, <<"dropS", 0, 0>> >>,
            << <<"yield", -1, 0>>, <<"deq", 0, 0>>, <<"pkn", 0, 0>>, <<"pk", 0, 0>>, <<"inc", -1, 3>>, <<"dropR", 0, 0>>,
               <<"ev", 0, 0>> >> >>
    [] f = "ring" ->
         << << <<"enq", 0, 0>>, <<"enq", 0, 4>>, <<"deq", 1, 0>>, <<"pk", 1, 0>>, <<"inc", -1, 2>> >>,
            << <<"enq", 1, 0>>, <<"wav", 1, 0>>, <<"deq", 0, 0>>, <<"pk", 0, 0>>, <<"inc", -1, 3>> >> >>
    [] f = "fan" ->
         << << <<"enq", 0, 0>>, <<"enq", 1, 3>>, <<"inc", -1, 2>>, <<"dropS", 0, 0>> >>,
            << <<"deq", 0, 0>>, <<"deq", 1, 0>>, <<"pk", 1, 0>>, <<"evall", 0, 0>>, <<"evany", 0, 0>>, <<"inc", -1, 4>> >> >>
    [] f = "wait" ->
         << << <<"enq", 0, 0>>, <<"inc", -1, 1>>, <<"inc", -1, 3>>, <<"wait", 1, 0>>, <<"tlb", 1, 0>> >>,
            << <<"deq", 0, 0>>, <<"inc", -1, 2>>, <<"wait", 0, 0>>, <<"tlb", 0, 0>>, <<"pk", 0, 0>> >> >>
    [] f = "relay" ->
         << << <<"enq", 0, 0>>, <<"enq", 0, 6>>, <<"inc", -1, 2>>, <<"wav", 0, 0>> >>,
            << <<"deq", 0, 0>>, <<"fwd", 1, 0>>, <<"inc", -1, 3>>, <<"dropR", 0, 0>>, <<"dropS", 1, 0>> >>,
            << <<"deq", 1, 0>>, <<"pkn", 1, 0>>, <<"inc", -1, 2>> >> >>
    [] f = "fails" ->
         << << <<"enq", 0, 0>>, <<"inc", -1, 2>>, <<"fail", -1, 0>>, <<"fail", -1, 1>>, <<"enq", 1, 0>> >>,
            << <<"deq", 0, 0>>, <<"fail", -1, 1>>, <<"tlb", 0, 0>>, <<"pk", 0, 0>>, <<"wait", 0, 0>> >>,
            << <<"deq", 1, 0>>, <<"fail", -1, 0>>, <<"wait", 0, 0>> >> >>

\* channels: from, to; the choices of capacity, latency and response latency
Caps == <<1, 2, -1>>
Lats == <<1, 3>>
Rlats == <<1, 4>>
Wires(f) == CASE f = "pair" -> << <<0, 1>> >>
              [] f = "ring" -> << <<0, 1>>, <<1, 0>> >>
              [] f = "fan" -> << <<0, 1>>, <<0, 1>> >>
              [] f = "wait" -> << <<0, 1>> >>
              [] f = "relay" -> << <<0, 1>>, <<1, 2>> >>
              [] f = "fails" -> << <<0, 1>>, <<0, 2>> >>
Configs == Len(Caps) * Len(Lats) * Len(Rlats)

RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* the radices: configurations, then scripts
Radices(f, l) == [i \in DOMAIN Wires(f) |-> Configs] \o [i \in DOMAIN Alphabet(f) |-> Power(Len(Alphabet(f)[i]), l)]
Size(f, l) == Prod(Radices(f, l))
RECURSIVE Digits(_, _)
Digits(n, rs) == IF rs = <<>> THEN <<>> ELSE <<n % Head(rs)>> \o Digits(n \div Head(rs), Tail(rs))

Chan(w, k) == [cap |-> Caps[1 + (k % 3)], lat |-> Lats[1 + ((k \div 3) % 2)], rlat |-> Rlats[1 + (k \div 6)],
               snd |-> w[1], rcv |-> w[2]]


OnChannel == {"enq", "fwd", "deq", "pkn", "pk", "wav", "dropS", "dropR", "ev"}
\* the script spelled by n; a context does nothing with an endpoint after dropping it
Script(f, p, n, l) ==
  LET A == Alphabet(f)[p]
      D == Digits(n, [i \in 1 .. l |-> Len(A)])
      T == [i \in 1 .. l |-> A[D[i] + 1]]
      Dead(i) == \E j \in 1 .. (i - 1) :
        T[j][1] \in {"dropS", "dropR"} /\
        \/ T[i][1] \in OnChannel /\ T[i][2] = T[j][2]
        \/ T[i][1] \in {"evall", "evany"} /\ T[j][1] = "dropR"
  IN [i \in 1 .. l |-> IF Dead(i) THEN <<"yield", -1, 0>> ELSE T[i]]

\* program n, with scripts of l operations: the configuration of its channels and its scripts
Small(f, l, n) ==
  LET rs == Radices(f, l) d == Digits(n, rs) W == Wires(f) a == Len(W) IN
  [chans |-> [i \in DOMAIN W |-> Chan(W[i], d[i])],
   scripts |-> [p \in DOMAIN Alphabet(f) |-> Script(f, p, d[a + p], l)]]

\* so many numbers below total, spread evenly from the first on: the distance has no factor in common with the radices
Step0(total, count) ==
  CHOOSE k \in ((total \div count) .. (total \div count) + 10) :
    /\ \A d \in {2, 3, 5, 7} : k = 1 \/ k % d # 0
    /\ \A m \in ((total \div count) .. (k - 1)) : m # 1 /\ \E d \in {2, 3, 5, 7} : m % d = 0
Spread(total, count, first) == [i \in 1 .. count |-> ((first % total) + (i - 1) * Step0(total, count)) % total]
=============================================================================
