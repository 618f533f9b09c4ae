----------------------------- MODULE ForwardGen -----------------------------
(* Behaviours of Forward.tla for replay, printed as JSON. *)
EXTENDS Forward, Json

VARIABLES hist, phase
gvars == <<vars, hist, phase>>

GInit ==
  /\ dag = <<>> /\ async \in [Ops -> BOOLEAN] /\ owner \in [Ops -> Builders]
  /\ st = [n \in Ops |-> "none"] /\ rd = [n \in Ops |-> 0]
  /\ public = {} /\ slots = 0 /\ held = {} /\ runs = [n \in Ops |-> 0]
  /\ hist = <<>> /\ phase = "build"
Build ==
  /\ phase = "build"
  /\ IF Len(dag) = N THEN phase' = "run" /\ UNCHANGED dag
     ELSE (\E a \in ArgSeqs(Len(dag) + 1, MaxArgs, Leaves) : dag' = Append(dag, a)) /\ phase' = phase
  /\ UNCHANGED <<async, owner, st, rd, public, slots, held, runs, hist>>
Ev(e) == hist' = Append(hist, e) /\ UNCHANGED phase
GNext ==
  \/ Build
  \/ /\ phase = "run"
     /\ \/ \E n \in Ops : Begin(n) /\ Ev(<<3, n, 0>>)
        \/ \E n \in Ops : Acquire(n) /\ UNCHANGED <<hist, phase>>
        \/ \E n \in Ops : Read(n) /\ Ev(<<1, n, rd[n] + 1>>)
        \/ \E n \in Ops : Finish(n) /\ Ev(<<2, n, 0>>)
        \/ \E n \in Ops : Release(n) /\ UNCHANGED <<hist, phase>>
        \/ /\ Finished /\ held = {}
           /\ PrintT(<<"SCHED", ToJson([dag |-> dag, async |-> async, owner |-> owner, hist |-> hist])>>)
           /\ phase' = "end" /\ UNCHANGED <<vars, hist>>
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
