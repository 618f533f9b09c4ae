-------------------------------- MODULE Stream --------------------------------
(***************************************************************************)
(* Streaming N parameters over an unbuffered channel (property C15).  The  *)
(* producer offers one parameter after the other; once the consumer's      *)
(* context is cancelled it may skip an offer, or end.  The consumer may    *)
(* stop receiving at any time, but then cancels.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT N

VARIABLES next, offering, closed, cancelled, reading, got
vars == <<next, offering, closed, cancelled, reading, got>>

Init == next = 1 /\ offering = FALSE /\ closed = FALSE /\ cancelled = FALSE /\ reading = TRUE /\ got = <<>>

Offer == ~closed /\ ~offering /\ next <= N /\ offering' = TRUE /\ UNCHANGED <<next, closed, cancelled, reading, got>>
Deliver == offering /\ reading /\ offering' = FALSE /\ next' = next + 1 /\ got' = Append(got, next)
           /\ UNCHANGED <<closed, cancelled, reading>>
Skip == offering /\ cancelled /\ offering' = FALSE /\ next' = next + 1 /\ UNCHANGED <<closed, cancelled, reading, got>>
Close == ~closed /\ ~offering /\ (next > N \/ cancelled) /\ closed' = TRUE
         /\ UNCHANGED <<next, offering, cancelled, reading, got>>
Cancel == ~cancelled /\ cancelled' = TRUE /\ UNCHANGED <<next, offering, closed, reading, got>>
Leave == reading /\ cancelled /\ reading' = FALSE /\ UNCHANGED <<next, offering, closed, cancelled, got>>

Producer == Offer \/ Deliver \/ Skip \/ Close
Next == Producer \/ Cancel \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Producer)

InOrder == \A a, b \in 1..Len(got) : a < b => got[a] < got[b]
Complete == (closed /\ ~cancelled) => got = [j \in 1..N |-> j]
NoGap == ~cancelled => \A j \in 1..Len(got) : got[j] = j
Ends == <>closed
=============================================================================
