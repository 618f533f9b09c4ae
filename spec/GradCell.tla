------------------------------ MODULE GradCell ------------------------------
(***************************************************************************)
(* A gradient cell shared by several processes (property C08).             *)
(*                                                                         *)
(* Abstractly the cell is a number: 0 for no gradient, otherwise the sum   *)
(* of the contributions since the last reset (contributions are different  *)
(* powers of two, so that a sum tells which ones it holds).  Effect gives  *)
(* the new cell and the result of an operation.                            *)
(*                                                                         *)
(* The implementation takes a lock, reads, computes and writes back.  The  *)
(* module states that each of its behaviours is one of the abstract cell,  *)
(* with the operation taking effect while the lock is held.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Effect(cell, op, x) ==
  CASE op = "acc"  -> <<cell + x, 0>>
    [] op = "zero" -> <<0, 0>>
    [] op = "has"  -> <<cell, IF cell = 0 THEN 0 ELSE 1>>
    [] op = "get"  -> <<cell, cell>>

CONSTANTS Procs, Len0
VARIABLES cell, lock, pc, tmp, op, done, abs, res
vars == <<cell, lock, pc, tmp, op, done, abs, res>>

Kinds == {"acc", "zero", "get"}
Init ==
  /\ cell = 0 /\ lock = 0 /\ abs = 0
  /\ pc = [p \in Procs |-> "idle"] /\ tmp = [p \in Procs |-> 0]
  /\ op = [p \in Procs |-> "acc"] /\ done = [p \in Procs |-> 0]
  /\ res = [p \in Procs |-> <<0, 0>>]

Contribution(p) == 2 ^ ((p - 1) * Len0 + done[p])

Call(p) ==
  /\ pc[p] = "idle" /\ done[p] < Len0
  /\ \E o \in Kinds : op' = [op EXCEPT ![p] = o]
  /\ pc' = [pc EXCEPT ![p] = "want"]
  /\ UNCHANGED <<cell, lock, tmp, done, abs, res>>
Lock(p) ==
  /\ pc[p] = "want" /\ lock = 0 /\ lock' = p
  /\ pc' = [pc EXCEPT ![p] = "read"]
  /\ LET e == Effect(abs, op[p], Contribution(p)) IN  \* the operation takes effect
       abs' = e[1] /\ res' = [res EXCEPT ![p] = <<e[2], 0>>]
  /\ UNCHANGED <<cell, tmp, op, done>>
Read(p) ==
  /\ pc[p] = "read" /\ tmp' = [tmp EXCEPT ![p] = cell]
  /\ pc' = [pc EXCEPT ![p] = "write"]
  /\ UNCHANGED <<cell, lock, op, done, abs, res>>
Write(p) ==
  /\ pc[p] = "write"
  /\ cell' = CASE op[p] = "acc" -> tmp[p] + Contribution(p) [] op[p] = "zero" -> 0 [] OTHER -> cell
  /\ pc' = [pc EXCEPT ![p] = "unlock"]
  /\ res' = [res EXCEPT ![p] = <<@[1], IF op[p] = "get" THEN tmp[p] ELSE 0>>]
  /\ UNCHANGED <<lock, tmp, op, done, abs>>
Unlock(p) ==
  /\ pc[p] = "unlock" /\ lock' = 0
  /\ pc' = [pc EXCEPT ![p] = "idle"] /\ done' = [done EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<cell, tmp, op, abs, res>>
Idle == (\A p \in Procs : done[p] = Len0) /\ UNCHANGED vars
Next == Idle \/ \E p \in Procs : Call(p) \/ Lock(p) \/ Read(p) \/ Write(p) \/ Unlock(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Atomic == lock = 0 => cell = abs
Results == \A p \in Procs : pc[p] \in {"unlock", "idle"} => res[p][1] = res[p][2]
Terminates == <>(\A p \in Procs : done[p] = Len0)
=============================================================================
