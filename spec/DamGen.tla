------------------------------- MODULE DamGen --------------------------------
(***************************************************************************)
(* Writes programs of a family for the implementation to execute; DamApi    *)
(* judges what it did.                                                      *)
(*                                                                         *)
(* FAMILY, LEN, FIRST, COUNT: so many programs are written to OUT, spread   *)
(* evenly over the family from number FIRST on; all of them if there are    *)
(* no more than that.                                                       *)
(***************************************************************************)
EXTENDS Families, TLC, Json, IOUtils

Num(s) == atoi(s)
Len0 == Num(IOEnv.LEN)
First == Num(IOEnv.FIRST)
Most == Num(IOEnv.COUNT)

Rel(d) == [Rel |-> d]
\* operation t as the i-th of context p
Op(t, p, i) ==
  CASE t[1] = "yield" -> "Yield"
    [] t[1] = "enq" -> [Enq |-> [ch |-> t[2], q |-> Rel(t[3]), v |-> 10 * p + i]]
    [] t[1] = "fwd" -> [Fwd |-> [ch |-> t[2], q |-> Rel(t[3]), d |-> 100]]
    [] t[1] = "deq" -> [Deq |-> [ch |-> t[2]]]
    [] t[1] = "pkn" -> [Pkn |-> [ch |-> t[2]]]
    [] t[1] = "pk" -> [Pk |-> [ch |-> t[2]]]
    [] t[1] = "wav" -> [Wav |-> [ch |-> t[2]]]
    [] t[1] = "inc" -> [Inc |-> [n |-> t[3]]]
    [] t[1] = "dropS" -> [DropS |-> [ch |-> t[2]]]
    [] t[1] = "dropR" -> [DropR |-> [ch |-> t[2]]]
    [] t[1] = "ev" -> [Ev |-> [kind |-> 0, chs |-> <<t[2]>>]]
    [] t[1] = "evall" -> [Ev |-> [kind |-> 1, chs |-> <<0, 1>>]]
    [] t[1] = "evany" -> [Ev |-> [kind |-> 2, chs |-> <<0, 1>>]]
    [] t[1] = "wait" -> [Wait |-> [on |-> <<t[2]>>, n |-> Rel(t[3])]]
    [] t[1] = "tlb" -> [Tlb |-> [on |-> <<t[2]>>]]
    [] t[1] = "fail" -> [Fail |-> [kind |-> t[3]]]

Program(f, l, n) ==
  LET x == Small(f, l, n) IN
  [chans |-> [i \in DOMAIN x.chans |-> [cap |-> x.chans[i].cap, lat |-> x.chans[i].lat, rlat |-> x.chans[i].rlat,
                                        snd |-> x.chans[i].snd, rcv |-> x.chans[i].rcv,
                                        void |-> FALSE, adapt_s |-> FALSE, adapt_r |-> FALSE]],
   ctxs |-> [p \in DOMAIN x.scripts |->
              [kind |-> [Script |-> [ops |-> [i \in DOMAIN x.scripts[p] |-> Op(x.scripts[p][i], p, i)], flavor |-> 0]]]],
   order |-> [p \in DOMAIN x.scripts |-> p - 1], groups |-> <<>>, tag |-> f]

------------------------------------------------------------------------------
F == IOEnv.FAMILY
Total == Size(F, Len0)
Count == IF Most < Total THEN Most ELSE Total
N == Spread(Total, Count, First)
Written == [i \in 1 .. Count |-> Program(F, Len0, N[i])]
ASSUME PrintT(<<"SIZE", Total, Count>>)
ASSUME ndJsonSerialize(IOEnv.OUT, Written)

VARIABLE done
Spec == done = TRUE /\ [][UNCHANGED done]_done
==============================================================================
