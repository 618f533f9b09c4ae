------------------------------- MODULE Shared -------------------------------
(***************************************************************************)
(* One model used by several goroutines at once (property C29).            *)
(*                                                                         *)
(* The model is a chain of stages, each with its parameter.  A goroutine   *)
(* applies the chain to its own input stage by stage, keeping what it      *)
(* computes to itself, and then runs backward stage by stage in the other  *)
(* direction, adding its contribution to the gradient of the parameter.    *)
(* A stage may remember what it derives from its parameter when it is      *)
(* first used ("memo"); looking and filling it in are separate steps.      *)
(* A watcher (a traversal, an encoder) reads the parameters one by one.    *)
(*                                                                         *)
(* A value is the sequence of what went into it, so that Alone says that   *)
(* a goroutine gets what it would get without the others.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Procs, Stages
VARIABLES
  pc,      \* per goroutine: "look", "fill", "use", "back", "done"
  at,      \* the stage it has come to
  val,     \* what it has computed
  param,   \* per stage: the value of the parameter
  memo,    \* per stage: what was derived from the parameter, or "none"
  grad,    \* per stage: the contributions to the gradient, one after the other
  seen     \* what the watcher has read
vars == <<pc, at, val, param, memo, grad, seen>>
S == 1..Stages
Derived(s) == <<"derived", param[s]>>

Init ==
  /\ pc = [p \in Procs |-> "look"] /\ at = [p \in Procs |-> 1] /\ val = [p \in Procs |-> <<p>>]
  /\ param = [s \in S |-> <<"param", s>>] /\ memo \in [S -> {<<"none">>, <<"filled">>}]
  /\ grad = [s \in S |-> <<>>] /\ seen = <<>>

Look(p) ==
  /\ pc[p] = "look"
  /\ pc' = [pc EXCEPT ![p] = IF memo[at[p]] = <<"none">> THEN "fill" ELSE "use"]
  /\ UNCHANGED <<at, val, param, memo, grad, seen>>
Fill(p) ==
  /\ pc[p] = "fill"
  /\ memo' = [memo EXCEPT ![at[p]] = <<"filled">>]
  /\ pc' = [pc EXCEPT ![p] = "use"]
  /\ UNCHANGED <<at, val, param, grad, seen>>
Use(p) ==
  /\ pc[p] = "use"
  /\ val' = [val EXCEPT ![p] = Append(@, Derived(at[p]))]
  /\ IF at[p] < Stages THEN at' = [at EXCEPT ![p] = @ + 1] /\ pc' = [pc EXCEPT ![p] = "look"]
     ELSE pc' = [pc EXCEPT ![p] = "back"] /\ UNCHANGED at
  /\ UNCHANGED <<param, memo, grad, seen>>
Back(p) ==
  /\ pc[p] = "back"
  /\ grad' = [grad EXCEPT ![at[p]] = Append(@, <<p, SubSeq(val[p], 1, at[p])>>)]
  /\ IF at[p] > 1 THEN at' = [at EXCEPT ![p] = @ - 1] /\ UNCHANGED pc
     ELSE pc' = [pc EXCEPT ![p] = "done"] /\ UNCHANGED at
  /\ UNCHANGED <<val, param, memo, seen>>
Watch ==
  /\ Len(seen) < Stages
  /\ seen' = Append(seen, param[Len(seen) + 1])
  /\ UNCHANGED <<pc, at, val, param, memo, grad>>

Done == \A p \in Procs : pc[p] = "done"
Next == Watch \/ (\E p \in Procs : Look(p) \/ Fill(p) \/ Use(p) \/ Back(p)) \/ (Done /\ Len(seen) = Stages /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Watch) /\ \A p \in Procs : WF_vars(Look(p) \/ Fill(p) \/ Use(p) \/ Back(p))

Term(p, n) == <<p>> \o [s \in 1..n |-> <<"derived", <<"param", s>>>>]
Alone == \A p \in Procs : val[p] = Term(p, Len(val[p]) - 1)
Unchanged == \A s \in S : param[s] = <<"param", s>>
Whole == \A s \in S, p \in Procs : (Done => \E k \in 1..Len(grad[s]) : grad[s][k][1] = p)
Once == \A s \in S : \A k, j \in 1..Len(grad[s]) : grad[s][k][1] = grad[s][j][1] => k = j
Right == \A s \in S : \A k \in 1..Len(grad[s]) : grad[s][k][2] = Term(grad[s][k][1], s - 1)
Watched == seen = [s \in 1..Len(seen) |-> <<"param", s>>]
Terminates == <>(Done /\ Len(seen) = Stages)
=============================================================================
