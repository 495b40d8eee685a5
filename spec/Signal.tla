------------------------------- MODULE Signal -------------------------------
(***************************************************************************)
(* How a context is told that another's clock has moved: the owner of a     *)
(* clock stores the new time and then, holding the lock of the list of      *)
(* waiters, wakes those whose time has come; a waiter looks at the clock,   *)
(* takes the lock if it is free, looks again, enters itself and sleeps.     *)
(* Steps are single accesses to the clock, the lock, the list and the wake- *)
(* up tokens; sleepers may also wake up for no reason.                      *)
(*                                                                         *)
(* TLC explores all interleavings of the owner with two waiters, each of    *)
(* which waits once or twice, for any times: nobody sleeps through its      *)
(* time, is let go before it, or is told a time that was not reached, and   *)
(* everybody is let go in the end, since the owner finishes (time Inf).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

Big == IOEnv.BIG = "1"
Last == 2                        \* the latest finite time
Waiters == 1 .. 2
Waits == IF Big THEN 2 ELSE 1    \* how often each of them waits
Inf == Last + 1

VARIABLES
  time,    \* the clock
  list,    \* waiters entered: <<waiter, time>>, in order
  lock,    \* who holds the lock of the list: 0 nobody, -1 the owner
  opc, tlb, scan,          \* the owner: what it does, the time it wakes waiters for, entries it has yet to look at
  pc, when, cur, held, n,  \* the waiters
  token,   \* wake-ups given and not used
  wrong    \* a wait that returned what it must not
vars == <<time, list, lock, opc, tlb, scan, pc, when, cur, held, n, token, wrong>>

Init ==
  /\ time = 0 /\ list = <<>> /\ lock = 0 /\ opc = "idle" /\ tlb = 0 /\ scan = <<>>
  /\ pc = [w \in Waiters |-> "out"] /\ when = [w \in Waiters |-> 0] /\ cur = [w \in Waiters |-> 0]
  /\ held = [w \in Waiters |-> FALSE] /\ n = [w \in Waiters |-> 0]
  /\ token = [w \in Waiters |-> FALSE] /\ wrong = FALSE

------------------------------------------------------------------------------
(* The owner *)
Waiter == <<pc, when, cur, held, n, wrong>>
Store == /\ opc = "idle" /\ time < Inf
         /\ time' \in (time + 1) .. Inf
         /\ opc' = "lock" /\ UNCHANGED <<list, lock, tlb, scan, token>> /\ UNCHANGED Waiter
Lock == /\ opc = "lock" /\ lock = 0 /\ lock' = -1 /\ opc' = "look"
        /\ UNCHANGED <<time, list, tlb, scan, token>> /\ UNCHANGED Waiter
Look == /\ opc = "look" /\ tlb' = time /\ scan' = list /\ list' = <<>> /\ opc' = "wake"
        /\ UNCHANGED <<time, lock, token>> /\ UNCHANGED Waiter
Wake == /\ opc = "wake" /\ scan # <<>>
        /\ LET s == Head(scan) IN
           IF s[2] <= tlb THEN token' = [token EXCEPT ![s[1]] = TRUE] /\ UNCHANGED list
           ELSE list' = Append(list, s) /\ UNCHANGED token
        /\ scan' = Tail(scan)
        /\ UNCHANGED <<time, lock, opc, tlb>> /\ UNCHANGED Waiter
Unlock == /\ opc = "wake" /\ scan = <<>> /\ lock' = 0 /\ opc' = "idle"
          /\ UNCHANGED <<time, list, tlb, scan, token>> /\ UNCHANGED Waiter
Owner == Store \/ Lock \/ Look \/ Wake \/ Unlock

------------------------------------------------------------------------------
(* A waiter *)
Same == UNCHANGED <<time, opc, tlb, scan>>
Go(w, to) == pc' = [pc EXCEPT ![w] = to]
Return(w, t) ==
  /\ Go(w, "out") /\ n' = [n EXCEPT ![w] = @ + 1]
  /\ wrong' = (wrong \/ t < when[w] \/ t > time)
Begin(w) == /\ pc[w] = "out" /\ n[w] < Waits
            /\ \E t \in 0 .. Inf : when' = [when EXCEPT ![w] = t]
            /\ Go(w, "first") /\ Same /\ UNCHANGED <<list, lock, cur, held, n, token, wrong>>
First(w) == /\ pc[w] = "first" /\ Same
            /\ IF time >= when[w] THEN Return(w, time) ELSE Go(w, "try") /\ UNCHANGED <<n, wrong>>
            /\ UNCHANGED <<list, lock, when, cur, held, token>>
Try(w) == /\ pc[w] = "try" /\ Same
          /\ held' = [held EXCEPT ![w] = lock = 0]
          /\ lock' = IF lock = 0 THEN w ELSE lock
          /\ Go(w, "again") /\ UNCHANGED <<list, when, cur, n, token, wrong>>
Again(w) == /\ pc[w] = "again" /\ Same
            /\ cur' = [cur EXCEPT ![w] = time]
            /\ IF time >= when[w] THEN /\ Return(w, time)
                                       /\ lock' = IF held[w] THEN 0 ELSE lock
               ELSE /\ Go(w, IF held[w] THEN "enter" ELSE "try") /\ UNCHANGED <<lock, n, wrong>>
            /\ UNCHANGED <<list, when, held, token>>
Enter(w) == /\ pc[w] = "enter" /\ Same
            /\ list' = Append(list, <<w, when[w]>>) /\ Go(w, "leave")
            /\ UNCHANGED <<lock, when, cur, held, n, token, wrong>>
Leave(w) == /\ pc[w] = "leave" /\ Same /\ lock' = 0 /\ held' = [held EXCEPT ![w] = FALSE] /\ Go(w, "sleep")
            /\ UNCHANGED <<list, when, cur, n, token, wrong>>
Awake(w) == /\ pc[w] = "sleep" /\ cur[w] < when[w] /\ Same /\ token[w]
            /\ token' = [token EXCEPT ![w] = FALSE] /\ Go(w, "reload")
            /\ UNCHANGED <<list, lock, when, cur, held, n, wrong>>
Spurious(w) == /\ pc[w] = "sleep" /\ cur[w] < when[w] /\ Same /\ Go(w, "reload")
               /\ UNCHANGED <<list, lock, when, cur, held, n, token, wrong>>
Reload(w) == /\ pc[w] = "reload" /\ Same /\ cur' = [cur EXCEPT ![w] = time] /\ Go(w, "sleep")
             /\ UNCHANGED <<list, lock, when, held, n, token, wrong>>
Final(w) == /\ pc[w] = "sleep" /\ cur[w] >= when[w] /\ Same /\ Return(w, time)
            /\ UNCHANGED <<list, lock, when, cur, held, token>>
Wait(w) == Begin(w) \/ First(w) \/ Try(w) \/ Again(w) \/ Enter(w) \/ Leave(w) \/ Awake(w) \/ Reload(w) \/ Final(w)

Next == Owner \/ \E w \in Waiters : Wait(w) \/ Spurious(w)
\* the owner goes on until it finishes; a waiter that can move does, whoever takes the lock in between
Fair == WF_vars(Owner) /\ \A w \in Waiters : WF_vars(Wait(w)) /\ SF_vars(Enter(w))
Spec == Init /\ [][Next]_vars /\ Fair

------------------------------------------------------------------------------
Exact == ~wrong
OneHolder == /\ (lock = -1) = (opc \in {"look", "wake"})
             /\ \A w \in Waiters : (lock = w) <=> held[w] /\ pc[w] \in {"again", "enter", "leave"}
\* whoever sleeps past its time is about to be woken
NoLost == \A w \in Waiters :
  pc[w] = "sleep" /\ cur[w] < when[w] /\ time >= when[w] => token[w] \/ opc # "idle"
\* the clock only moves forwards
Forward == [][time' >= time]_time
\* everybody is let go
Free == \A w \in Waiters : pc[w] # "out" ~> pc[w] = "out"
=============================================================================
