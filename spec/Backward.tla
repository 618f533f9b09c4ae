------------------------------ MODULE Backward ------------------------------
(***************************************************************************)
(* The protocol of Backward (property C01), at the granularity of its      *)
(* atomic steps: the caller prepares all operators (counting the           *)
(* contributions each will receive), seeds the outputs, starts one process *)
(* per operator and waits for all of them; each process waits for its      *)
(* complete gradient and delivers to its operands one after the other.     *)
(***************************************************************************)
EXTENDS Graphs, TLC

CONSTANTS N, MaxArgs, Leaves, MaxCalls

VARIABLES
  dag, roots,     \* the graph and the outputs of the current call
  calls,          \* number of calls so far
  pc,             \* of the caller: "idle", "prepare", "seed", "spawn", "wait"
  todo,           \* operators the caller still has to seed / start
  st,             \* per operator: "idle", "pending", "ongoing"
  cnt,            \* contributions not yet received
  acc,            \* contributions held: set of <<m, k>> and <<"seed">> (of this call)
  proc,           \* per operator: "none", "waiting", or <<"deliver", k>>, or "ended"
  runs,           \* how often the backward function ran in this call
  wg              \* processes the caller waits for
vars == <<dag, roots, calls, pc, todo, st, cnt, acc, proc, runs, wg>>

Ops == 1..N
T == Taking(dag, roots)
Seed == <<0, 0>>

Init ==
  /\ dag \in DagsUpTo(N, MaxArgs, Leaves)
  /\ roots = {} /\ calls = 0 /\ pc = "idle" /\ todo = {}
  /\ st = [n \in Ops |-> "idle"] /\ cnt = [n \in Ops |-> 0] /\ acc = [n \in Ops |-> {}]
  /\ proc = [n \in Ops |-> <<"none">>] /\ runs = [n \in Ops |-> 0] /\ wg = 0

Call ==
  /\ pc = "idle" /\ calls < MaxCalls
  /\ \E R \in SUBSET Ops \ {{}} : roots' = R
  /\ calls' = calls + 1 /\ pc' = "prepare" /\ todo' = {}
  /\ acc' = [n \in Ops |-> {}] /\ runs' = [n \in Ops |-> 0]
  /\ proc' = [n \in Ops |-> <<"none">>]
  /\ UNCHANGED <<dag, st, cnt, wg>>

(* prepareBackwardPass over all outputs: one step, no process runs yet *)
Prepare ==
  /\ pc = "prepare" /\ pc' = "seed"
  /\ st' = [n \in Ops |-> IF n \in T THEN "pending" ELSE st[n]]
  /\ cnt' = [n \in Ops |-> IF n \in T
               THEN Cardinality(Dependents(dag, T, n)) + (IF n \in roots THEN 1 ELSE 0)
               ELSE cnt[n]]
  /\ todo' = roots
  /\ UNCHANGED <<dag, roots, calls, acc, proc, runs, wg>>

SeedOne ==
  /\ pc = "seed"
  /\ IF todo \cap T = {} THEN pc' = "spawn" /\ todo' = T /\ UNCHANGED <<cnt, acc>>
     ELSE LET n == CHOOSE x \in todo \cap T : TRUE IN
          /\ cnt' = [cnt EXCEPT ![n] = @ - 1]
          /\ acc' = [acc EXCEPT ![n] = @ \cup {Seed}]
          /\ todo' = todo \ {n} /\ pc' = pc
  /\ UNCHANGED <<dag, roots, calls, st, proc, runs, wg>>

Spawn(n) ==
  /\ pc = "spawn" /\ n \in todo /\ st[n] = "pending"
  /\ st' = [st EXCEPT ![n] = "ongoing"]
  /\ proc' = [proc EXCEPT ![n] = <<"waiting">>]
  /\ wg' = wg + 1 /\ todo' = todo \ {n}
  /\ UNCHANGED <<dag, roots, calls, pc, cnt, acc, runs>>

Spawned == pc = "spawn" /\ todo = {} /\ pc' = "wait"
           /\ UNCHANGED <<dag, roots, calls, todo, st, cnt, acc, proc, runs, wg>>

(* the backward function of n is entered with the gradient acc[n] *)
Start(n) ==
  /\ proc[n] = <<"waiting">> /\ cnt[n] = 0
  /\ runs' = [runs EXCEPT ![n] = @ + 1]
  /\ proc' = [proc EXCEPT ![n] = <<"deliver", 1>>]
  /\ UNCHANGED <<dag, roots, calls, pc, todo, st, cnt, acc, wg>>

Deliver(n) ==
  /\ proc[n][1] = "deliver" /\ proc[n][2] <= Len(dag[n])
  /\ LET k == proc[n][2] m == dag[n][k] IN
     /\ proc' = [proc EXCEPT ![n] = <<"deliver", k + 1>>]
     /\ IF m > 0 /\ Rg(dag, m)
        THEN /\ acc' = [acc EXCEPT ![m] = @ \cup {<<n, k>>}]
             /\ cnt' = [cnt EXCEPT ![m] = @ - 1]
        ELSE UNCHANGED <<acc, cnt>>
  /\ UNCHANGED <<dag, roots, calls, pc, todo, st, runs, wg>>

End(n) ==
  /\ proc[n][1] = "deliver" /\ proc[n][2] > Len(dag[n])
  /\ proc' = [proc EXCEPT ![n] = <<"ended">>]
  /\ st' = [st EXCEPT ![n] = "idle"] /\ wg' = wg - 1
  /\ UNCHANGED <<dag, roots, calls, pc, todo, cnt, acc, runs>>

Return == pc = "wait" /\ wg = 0 /\ pc' = "idle"
          /\ UNCHANGED <<dag, roots, calls, todo, st, cnt, acc, proc, runs, wg>>

Idle == pc = "idle" /\ calls = MaxCalls /\ UNCHANGED vars

Next == Call \/ Prepare \/ SeedOne \/ Spawned \/ Return \/ Idle
        \/ \E n \in Ops : Spawn(n) \/ Start(n) \/ Deliver(n) \/ End(n)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* Property C01 *)
Complete(n) == acc[n] = Dependents(dag, T, n) \cup (IF n \in roots THEN {Seed} ELSE {})
OnlyOnComplete == \A n \in Ops : runs[n] > 0 => n \in T /\ Complete(n)
AtMostOnce == \A n \in Ops : runs[n] <= 1
AfterDependents == \A n \in Ops : runs[n] > 0 => \A x \in Dependents(dag, T, n) : runs[x[1]] = 1
AllWhenReturned ==
  (pc = "idle" /\ calls > 0) => \A n \in Ops : /\ runs[n] = (IF n \in T THEN 1 ELSE 0)
                                              /\ st[n] = "idle" /\ cnt[n] = 0
SinglePass == LET rg == RgSeq(dag) IN TakingBy(dag, rg, roots) = T
CountersSound == \A n \in Ops : cnt[n] >= 0
Terminates == [](pc # "idle" => <>(pc = "idle"))
=============================================================================
