------------------------------- MODULE EmbMarks -------------------------------
(***************************************************************************)
(* Why marking rows suffices (property C18): look-ups accumulate gradients *)
(* and mark their rows under the lock of the table; resets through a       *)
(* look-up or through the table unmark; resets of the parameter alone, as  *)
(* an optimizer does, leave a stale mark.  A traversal, which skips and    *)
(* removes stale marks, sees exactly the rows that hold gradients.  The    *)
(* table may be loaded, without marks, at any time.                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Rows, MaxG, Clients
VARIABLES g, marks, pc, row, seen, ok
vars == <<g, marks, pc, row, seen, ok>>

Init ==
  /\ g = [r \in Rows |-> 0] /\ marks = {} /\ ok = TRUE
  /\ pc = [c \in Clients |-> "idle"] /\ row = [c \in Clients |-> CHOOSE r \in Rows : TRUE] /\ seen = {}
Locked == \E c \in Clients : pc[c] \in {"marked", "unmarked"}
(* accumulate: lock and mark, then add and unlock *)
Mark(c, r) == /\ pc[c] = "idle" /\ ~Locked
              /\ marks' = marks \cup {r} /\ row' = [row EXCEPT ![c] = r] /\ pc' = [pc EXCEPT ![c] = "marked"]
              /\ UNCHANGED <<g, seen, ok>>
Add(c) == /\ pc[c] = "marked" /\ g' = [g EXCEPT ![row[c]] = IF @ < MaxG THEN @ + 1 ELSE @]
          /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<marks, row, seen, ok>>
(* reset through a look-up: lock and unmark, then reset and unlock *)
Unmark(c, r) == /\ pc[c] = "idle" /\ ~Locked
                /\ marks' = marks \ {r} /\ row' = [row EXCEPT ![c] = r] /\ pc' = [pc EXCEPT ![c] = "unmarked"]
                /\ UNCHANGED <<g, seen, ok>>
Drop(c) == /\ pc[c] = "unmarked" /\ g' = [g EXCEPT ![row[c]] = 0]
           /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<marks, row, seen, ok>>
(* reset of the parameter, without the lock *)
Bare(r) == g' = [g EXCEPT ![r] = 0] /\ UNCHANGED <<marks, pc, row, seen, ok>>
Traverse == /\ ~Locked
            /\ seen' = {r \in marks : g[r] > 0} /\ marks' = seen'
            /\ ok' = (seen' = {r \in Rows : g[r] > 0})
            /\ UNCHANGED <<g, pc, row>>
ZeroAll == /\ ~Locked
           /\ g' = [r \in Rows |-> IF r \in marks THEN 0 ELSE g[r]] /\ marks' = {}
           /\ ok' = (\A r \in Rows : g'[r] = 0)
           /\ UNCHANGED <<pc, row, seen>>
Load == /\ ~Locked /\ g' = [r \in Rows |-> 0] /\ marks' = {} /\ UNCHANGED <<pc, row, seen, ok>>
Next == Traverse \/ ZeroAll \/ Load \/ (\E r \in Rows : Bare(r))
        \/ \E c \in Clients : Add(c) \/ Drop(c) \/ \E r \in Rows : Mark(c, r) \/ Unmark(c, r)
Spec == Init /\ [][Next]_vars
Exact == ok
Marked == \A r \in Rows : g[r] > 0 => (r \in marks \/ \E c \in Clients : pc[c] = "unmarked" /\ row[c] = r)
===============================================================================
