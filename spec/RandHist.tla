------------------------------ MODULE RandHist ------------------------------
(***************************************************************************)
(* Concurrent histories of different calls on a shared generator (property *)
(* C28): a history is admitted iff its calls can be put into a sequential  *)
(* order, compatible with the real time order of calls and returns, in     *)
(* which each answers what a generator of that seed answers at that        *)
(* position (tab[position][call] = <<result, next position>>, recorded     *)
(* from a generator used by one goroutine).                                *)
(***************************************************************************)
EXTENDS RealArith, TLC, IOUtils

Trace == LoadTrace(IOEnv.TRACE)
VARIABLES i, k, pos, open, lin
vars == <<i, k, pos, open, lin>>
E == Trace[i]
Ev == E.ev[k]
Init ==
  /\ i \in {j \in 1..Len(Trace) : Trace[j].outcome = "ok"}
  /\ k = 1 /\ pos = 0 /\ open = {} /\ lin = <<>>
Take(o) ==
  LET a == E.tab[pos + 1][E.ev[o].op] IN
  /\ pos' = a[2] /\ pos' < Len(E.tab)
  /\ lin' = (o :> a[1]) @@ lin
Next ==
  /\ k <= Len(E.ev)
  /\ UNCHANGED i
  /\ IF Ev.t = "call"
     THEN k' = k + 1 /\ open' = open \cup {k} /\ UNCHANGED <<pos, lin>>
     ELSE IF Ev.id \in DOMAIN lin
     THEN /\ lin[Ev.id] = Ev.r
          /\ k' = k + 1 /\ open' = open \ {Ev.id}
          /\ lin' = [o \in DOMAIN lin \ {Ev.id} |-> lin[o]] /\ UNCHANGED pos
     ELSE \E o \in open \ DOMAIN lin : Take(o) /\ UNCHANGED <<k, open>>
Spec == Init /\ [][Next]_vars
Accepted == IF k > Len(E.ev) THEN PrintT(<<"ACCEPT", i>>) ELSE TRUE
ASSUME \A j \in 1..Len(Trace) :
  IF Trace[j].outcome # "ok" THEN PrintT(<<"MISMATCH", j, Trace[j].key, <<"outcome " \o Trace[j].outcome>>>>) ELSE TRUE
=============================================================================
