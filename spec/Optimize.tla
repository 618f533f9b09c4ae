------------------------------ MODULE Optimize ------------------------------
(***************************************************************************)
(* One optimization step (properties C09 and C10): the caller receives     *)
(* parameters from a stream and starts one update per parameter, at most   *)
(* Slots at a time; an update that fails offers its error, the first one   *)
(* offered is kept.  The caller returns when no update is under way.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, MaxLen, Slots

VARIABLES
  order,        \* the stream: a sequence of parameters, repetitions possible
  has, fail,    \* parameters with a gradient, parameters whose update fails
  pos, pc,      \* of the caller: "recv", "start", "wait", "abort", "done"
  cur,          \* the parameter being started
  seen, w,      \* parameters met; per parameter "none", "begin", "update", "end"
  slots, err,   \* slots in use; the error kept (0: none)
  upd,          \* how often the update was applied
  result        \* 0: success, else the failing parameter; -1: not returned
vars == <<order, has, fail, pos, pc, cur, seen, w, slots, err, upd, result>>
Ps == 1..N

Init ==
  /\ order \in UNION {[1..k -> Ps] : k \in 0..MaxLen}
  /\ has \in SUBSET Ps /\ fail \in SUBSET Ps
  /\ pos = 1 /\ pc = "recv" /\ cur = 0 /\ seen = {}
  /\ w = [p \in Ps |-> "none"] /\ slots = 0 /\ err = 0
  /\ upd = [p \in Ps |-> 0] /\ result = -1

Recv ==
  /\ pc = "recv"
  /\ IF pos > Len(order) THEN pc' = "wait" /\ UNCHANGED <<pos, cur, seen, err, result>>
     ELSE /\ pos' = pos + 1
          /\ IF order[pos] \in seen THEN UNCHANGED <<pc, cur, seen, err, result>>
             ELSE /\ seen' = seen \cup {order[pos]} /\ cur' = order[pos]
                  /\ IF err # 0
                     THEN pc' = "abort" /\ result' = err /\ err' = 0
                     ELSE pc' = "start" /\ UNCHANGED <<err, result>>
  /\ UNCHANGED <<order, has, fail, w, slots, upd>>
Start ==
  /\ pc = "start" /\ slots < Slots
  /\ slots' = slots + 1 /\ w' = [w EXCEPT ![cur] = "begin"] /\ pc' = "recv"
  /\ UNCHANGED <<order, has, fail, pos, cur, seen, err, upd, result>>

Begin(p) ==
  /\ w[p] = "begin"
  /\ w' = [w EXCEPT ![p] = IF p \in has THEN "update" ELSE "end"]
  /\ UNCHANGED <<order, has, fail, pos, pc, cur, seen, slots, err, upd, result>>
Update(p) ==
  /\ w[p] = "update" /\ w' = [w EXCEPT ![p] = "end"]
  /\ IF p \in fail THEN err' = (IF err = 0 THEN p ELSE err) /\ UNCHANGED upd
     ELSE upd' = [upd EXCEPT ![p] = @ + 1] /\ UNCHANGED err
  /\ UNCHANGED <<order, has, fail, pos, pc, cur, seen, slots, result>>
End(p) ==
  /\ w[p] = "end" /\ w' = [w EXCEPT ![p] = "gone"] /\ slots' = slots - 1
  /\ UNCHANGED <<order, has, fail, pos, pc, cur, seen, err, upd, result>>

Quiet == \A p \in Ps : w[p] \in {"none", "gone"}
Return ==
  /\ pc \in {"wait", "abort"} /\ Quiet
  /\ result' = IF pc = "abort" THEN result ELSE err
  /\ pc' = "done"
  /\ UNCHANGED <<order, has, fail, pos, cur, seen, w, slots, err, upd>>
Idle == pc = "done" /\ UNCHANGED vars

Next == Recv \/ Start \/ Return \/ Idle \/ \E p \in Ps : Begin(p) \/ Update(p) \/ End(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Streamed == {order[k] : k \in 1..Len(order)}
OnlyOnce == \A p \in Ps : upd[p] <= 1 /\ (upd[p] = 1 => p \in has \ fail)
NothingAfter == pc = "done" => Quiet
Success == (pc = "done" /\ result = 0) =>
  /\ Streamed \cap has \cap fail = {}
  /\ \A p \in Streamed \cap has : upd[p] = 1
Failure == (pc = "done" /\ result # 0) => result \in fail \cap has \cap Streamed
Terminates == <>(pc = "done")
=============================================================================
