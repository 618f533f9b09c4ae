----------------------------- MODULE BackwardGen -----------------------------
(***************************************************************************)
(* Behaviours of Backward.tla for replay: the graph is built step by step, *)
(* the visible steps of every call are kept in hist and the whole          *)
(* behaviour is printed as JSON.  Used with TLC's simulation mode.         *)
(***************************************************************************)
EXTENDS Backward, Json, IOUtils

VARIABLES hist, printed
gvars == <<vars, hist, printed>>

GInit ==
  /\ dag = <<>>
  /\ roots = {} /\ calls = 0 /\ pc = "build" /\ todo = {}
  /\ st = [n \in Ops |-> "idle"] /\ cnt = [n \in Ops |-> 0] /\ acc = [n \in Ops |-> {}]
  /\ proc = [n \in Ops |-> <<"none">>] /\ runs = [n \in Ops |-> 0] /\ wg = 0
  /\ hist = <<>> /\ printed = FALSE

Build ==
  /\ pc = "build"
  /\ IF Len(dag) = N THEN pc' = "idle" /\ UNCHANGED dag
     ELSE /\ \E a \in ArgSeqs(Len(dag) + 1, MaxArgs, Leaves) : dag' = Append(dag, a)
          /\ pc' = pc
  /\ UNCHANGED <<roots, calls, todo, st, cnt, acc, proc, runs, wg>>

Ev(e) == hist' = Append(hist, e)
GNext ==
  \/ Build /\ UNCHANGED <<hist, printed>>
  \/ Call /\ Ev(<<"call", 0, 0>> \o SetToSeq(roots')) /\ UNCHANGED printed
  \/ (Prepare \/ SeedOne \/ Spawned \/ Return) /\ UNCHANGED <<hist, printed>>
  \/ \E n \in Ops : Spawn(n) /\ UNCHANGED <<hist, printed>>
  \/ \E n \in Ops : Start(n) /\ Ev(<<"start", n, 0>>) /\ UNCHANGED printed
  \/ \E n \in Ops : Deliver(n) /\ Ev(<<"del", n, proc[n][2]>>) /\ UNCHANGED printed
  \/ \E n \in Ops : End(n) /\ Ev(<<"end", n, 0>>) /\ UNCHANGED printed
  \/ /\ Idle /\ ~printed
     /\ PrintT(<<"SCHED", ToJson([dag |-> dag, hist |-> hist])>>)
     /\ printed' = TRUE /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
