---------------------------- MODULE OptimizeGen ----------------------------
(* Behaviours of Optimize.tla for replay, printed as JSON. *)
EXTENDS Optimize, Json
VARIABLES hist, phase
gvars == <<vars, hist, phase>>
GInit ==
  /\ order = <<>> /\ has = {} /\ fail = {}
  /\ pos = 1 /\ pc = "recv" /\ cur = 0 /\ seen = {}
  /\ w = [p \in Ps |-> "none"] /\ slots = 0 /\ err = 0
  /\ upd = [p \in Ps |-> 0] /\ result = -1
  /\ hist = <<>> /\ phase = "build"
Build ==
  /\ phase = "build"
  /\ IF Len(order) < MaxLen
     THEN (\E p \in Ps : order' = Append(order, p)) /\ UNCHANGED <<has, fail, phase>>
     ELSE /\ \E S \in SUBSET Ps : has' = S
          /\ \E S \in SUBSET Ps : fail' = S
          /\ phase' = "run" /\ UNCHANGED order
  /\ UNCHANGED <<pos, pc, cur, seen, w, slots, err, upd, result, hist>>
Ev(e) == hist' = Append(hist, e) /\ UNCHANGED phase
GNext ==
  \/ Build
  \/ /\ phase = "run"
     /\ \/ (Recv \/ Start \/ Return) /\ UNCHANGED <<hist, phase>>
        \/ \E p \in Ps : Begin(p) /\ (IF p \in has THEN Ev(<<0, p, 0>>) ELSE UNCHANGED <<hist, phase>>)
        \/ \E p \in Ps : Update(p) /\ Ev(<<2, p, 0>>)
        \/ \E p \in Ps : End(p) /\ UNCHANGED <<hist, phase>>
        \/ /\ pc = "done" /\ phase' = "end" /\ UNCHANGED <<vars, hist>>
           /\ PrintT(<<"SCHED", ToJson([n |-> N, order |-> order, has |-> has, fail |-> fail, hist |-> hist])>>)
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
