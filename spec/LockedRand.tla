----------------------------- MODULE LockedRand -----------------------------
(***************************************************************************)
(* A random generator shared by several processes (property C28).          *)
(*                                                                         *)
(* Abstractly, the generator is a position in the infinite sequence of its *)
(* seed: a call hands out what stands at the position and moves it on.     *)
(* The implementation takes a lock, steps a two-word state (low then high) *)
(* once or several times and releases the lock, also when the call fails   *)
(* (bad argument).  The module states that then every value is handed out  *)
(* to exactly one caller, none is skipped, a call that draws several gets  *)
(* neighbours, each caller sees an increasing sequence, and that nobody    *)
(* waits forever.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Procs, Calls, MaxDraw
VARIABLES low, high, lock, pc, tmp, left, cur, got, calls
vars == <<low, high, lock, pc, tmp, left, cur, got, calls>>

Init ==
  /\ low = 0 /\ high = 0 /\ lock = 0
  /\ pc = [p \in Procs |-> "idle"] /\ tmp = [p \in Procs |-> <<0, 0>>]
  /\ left = [p \in Procs |-> 0] /\ cur = [p \in Procs |-> <<>>]
  /\ got = [p \in Procs |-> <<>>] /\ calls = [p \in Procs |-> 0]

Call(p) ==   \* n = 0: a call with a bad argument
  /\ pc[p] = "idle" /\ calls[p] < Calls
  /\ \E n \in 0..MaxDraw : left' = [left EXCEPT ![p] = n]
  /\ pc' = [pc EXCEPT ![p] = "want"] /\ calls' = [calls EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<low, high, lock, tmp, cur, got>>
Lock(p) ==
  /\ pc[p] = "want" /\ lock = 0 /\ lock' = p
  /\ pc' = [pc EXCEPT ![p] = IF left[p] = 0 THEN "unlock" ELSE "read"]
  /\ UNCHANGED <<low, high, tmp, left, cur, got, calls>>
Read(p) ==
  /\ pc[p] = "read" /\ tmp' = [tmp EXCEPT ![p] = <<low, high>>]
  /\ pc' = [pc EXCEPT ![p] = "low"]
  /\ UNCHANGED <<low, high, lock, left, cur, got, calls>>
Low(p) ==
  /\ pc[p] = "low" /\ low' = tmp[p][1] + 1
  /\ pc' = [pc EXCEPT ![p] = "high"]
  /\ UNCHANGED <<high, lock, tmp, left, cur, got, calls>>
High(p) ==
  /\ pc[p] = "high" /\ high' = tmp[p][2] + 1
  /\ cur' = [cur EXCEPT ![p] = Append(@, low)]
  /\ left' = [left EXCEPT ![p] = @ - 1]
  /\ pc' = [pc EXCEPT ![p] = IF left[p] = 1 THEN "unlock" ELSE "read"]
  /\ UNCHANGED <<low, lock, tmp, got, calls>>
Unlock(p) ==
  /\ pc[p] = "unlock" /\ lock' = 0
  /\ pc' = [pc EXCEPT ![p] = "idle"]
  /\ got' = [got EXCEPT ![p] = IF cur[p] = <<>> THEN @ ELSE Append(@, cur[p])]
  /\ cur' = [cur EXCEPT ![p] = <<>>]
  /\ UNCHANGED <<low, high, tmp, left, calls>>
Idle == (\A p \in Procs : pc[p] = "idle" /\ calls[p] = Calls) /\ UNCHANGED vars
Next == Idle \/ \E p \in Procs : Call(p) \/ Lock(p) \/ Read(p) \/ Low(p) \/ High(p) \/ Unlock(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* What was handed out: a sequence (per process) of calls, each a sequence *)
(* of numbers (positions in the sequence of the seed, from 1).             *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Range(s) == {s[j] : j \in DOMAIN s}
Neighbours(c) == \A j \in 1..Len(c) - 1 : c[j + 1] = c[j] + 1
Increasing(s) == \A j \in 1..Len(s) - 1 : s[j] < s[j + 1]
(* handed out: exactly the first n values, each once *)
Exactly(hist, n) ==   \* hist: a function or sequence of sequences of calls
  /\ \A p \in DOMAIN hist : Increasing(Flat(hist[p])) /\ \A j \in DOMAIN hist[p] : Neighbours(hist[p][j])
  /\ \A p, q \in DOMAIN hist : p # q => Range(Flat(hist[p])) \cap Range(Flat(hist[q])) = {}
  /\ UNION {Range(Flat(hist[p])) : p \in DOMAIN hist} = 1..n

Handed == lock = 0 => low = high /\ Exactly(got, low)
Terminates == <>(\A p \in Procs : pc[p] = "idle" /\ calls[p] = Calls)
=============================================================================
