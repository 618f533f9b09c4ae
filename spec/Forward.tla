------------------------------ MODULE Forward ------------------------------
(***************************************************************************)
(* The protocol of the forward pass (property C03).  Builders (goroutines  *)
(* of the user) run operators one after the other; a synchronous operator  *)
(* is evaluated by its builder, an asynchronous one by a process of its    *)
(* own once one of Limit slots is free.  An evaluation reads its operands  *)
(* in turn, each read waiting for the operand's value.                     *)
(***************************************************************************)
EXTENDS Graphs, TLC

CONSTANTS N, MaxArgs, Leaves, Builders, Limit

VARIABLES
  dag, async, owner,  \* the graph, which operators are asynchronous, who builds them
  st,                 \* "none", "queued", "running", "done"
  rd,                 \* operands read so far
  public,             \* operators whose Run has returned: usable as operands
  slots,              \* slots in use
  held,               \* asynchronous operators that still hold their slot
  runs                \* executions of the forward function
vars == <<dag, async, owner, st, rd, public, slots, held, runs>>
Ops == 1..N

Init ==
  /\ dag \in DagsUpTo(N, MaxArgs, Leaves)
  /\ async \in [Ops -> BOOLEAN] /\ owner \in [Ops -> Builders]
  /\ st = [n \in Ops |-> "none"] /\ rd = [n \in Ops |-> 0]
  /\ public = {} /\ slots = 0 /\ held = {} /\ runs = [n \in Ops |-> 0]

(* a builder works on one operator at a time, in order *)
Turn(n) == \A m \in 1..(n - 1) : owner[m] = owner[n] => m \in public
Operands(n) == {dag[n][k] : k \in {j \in 1..Len(dag[n]) : dag[n][j] > 0}}

Begin(n) ==
  /\ st[n] = "none" /\ Turn(n) /\ Operands(n) \subseteq public
  /\ st' = [st EXCEPT ![n] = IF async[n] THEN "queued" ELSE "running"]
  /\ runs' = [runs EXCEPT ![n] = @ + (IF async[n] THEN 0 ELSE 1)]
  /\ UNCHANGED <<dag, async, owner, rd, public, slots, held>>

Acquire(n) ==
  /\ st[n] = "queued" /\ slots < Limit
  /\ st' = [st EXCEPT ![n] = "running"] /\ runs' = [runs EXCEPT ![n] = @ + 1]
  /\ slots' = slots + 1 /\ held' = held \cup {n}
  /\ public' = public \cup {n}
  /\ UNCHANGED <<dag, async, owner, rd>>

Read(n) ==
  /\ st[n] = "running" /\ rd[n] < Len(dag[n])
  /\ LET m == dag[n][rd[n] + 1] IN m > 0 => st[m] = "done"
  /\ rd' = [rd EXCEPT ![n] = @ + 1]
  /\ UNCHANGED <<dag, async, owner, st, public, slots, held, runs>>

Finish(n) ==
  /\ st[n] = "running" /\ rd[n] = Len(dag[n])
  /\ st' = [st EXCEPT ![n] = "done"]
  /\ public' = public \cup {n}
  /\ UNCHANGED <<dag, async, owner, rd, slots, held, runs>>

Release(n) ==
  /\ n \in held /\ st[n] = "done"
  /\ slots' = slots - 1 /\ held' = held \ {n}
  /\ UNCHANGED <<dag, async, owner, st, rd, public, runs>>

Finished == \A n \in Ops : st[n] = "done"
Idle == Finished /\ held = {} /\ UNCHANGED vars
Next == Idle \/ \E n \in Ops : Begin(n) \/ Acquire(n) \/ Read(n) \/ Finish(n) \/ Release(n)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ReadsComplete == \A n \in Ops : \A k \in 1..rd[n] : dag[n][k] > 0 => st[dag[n][k]] = "done"
OnlyOnce == \A n \in Ops : runs[n] <= 1 /\ (st[n] = "done" => runs[n] = 1)
WithinLimit == slots <= Limit /\ slots = Cardinality(held)
Terminates == <>Finished
=============================================================================
