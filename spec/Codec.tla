-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Saving and loading (properties C16 and C17).  Memory holds independent  *)
(* objects with a content; a stream is a sequence of records, each of      *)
(* which is the content saved, or Broken if the save was cut short by a    *)
(* failure or the record damaged afterwards.  Loading makes a new object   *)
(* with the content of the next record, or fails and makes none.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Ids, Contents, Streams, Broken, MaxLen

VARIABLES mem,     \* contents of the objects in memory: a partial function of Ids
          disk,    \* records of each stream still to be read
          saved,   \* contents ever saved
          failed   \* the last call returned an error
vars == <<mem, disk, saved, failed>>

Has(id) == id \in DOMAIN mem
Put(m, id, c) == [x \in DOMAIN m \cup {id} |-> IF x = id THEN c ELSE m[x]]
DoNew(id, c) == mem' = Put(mem, id, c) /\ UNCHANGED <<disk, saved>> /\ failed' = FALSE
DoMutate(id, c) == Has(id) /\ mem' = [mem EXCEPT ![id] = c] /\ UNCHANGED <<disk, saved>> /\ failed' = FALSE
DoSave(id, s) == Has(id) /\ disk' = [disk EXCEPT ![s] = Append(@, mem[id])] /\ saved' = saved \cup {mem[id]}
                 /\ UNCHANGED mem /\ failed' = FALSE
DoBrokenSave(id, s) == Has(id) /\ disk' = [disk EXCEPT ![s] = Append(@, Broken)] /\ UNCHANGED <<mem, saved>> /\ failed' = TRUE
DoCut(s) == disk[s] # <<>> /\ disk' = [disk EXCEPT ![s][Len(disk[s])] = Broken] /\ UNCHANGED <<mem, saved>> /\ failed' = FALSE
DoLoad(s, id) ==
  /\ ~Has(id)
  /\ IF disk[s] = <<>> \/ Head(disk[s]) = Broken
     THEN failed' = TRUE /\ UNCHANGED <<mem, disk, saved>>
     ELSE /\ mem' = Put(mem, id, Head(disk[s])) /\ disk' = [disk EXCEPT ![s] = Tail(@)]
          /\ UNCHANGED saved /\ failed' = FALSE

Init == mem = <<>> /\ disk = [s \in Streams |-> <<>>] /\ saved = {} /\ failed = FALSE
Next ==
  \/ \E id \in Ids, c \in Contents : (~Has(id) /\ DoNew(id, c)) \/ DoMutate(id, c)
  \/ \E id \in Ids, s \in Streams :
        (Len(disk[s]) < MaxLen /\ (DoSave(id, s) \/ DoBrokenSave(id, s))) \/ DoLoad(s, id)
  \/ \E s \in Streams : DoCut(s)
Spec == Init /\ [][Next]_vars

NoHalfObject == \A id \in DOMAIN mem : mem[id] \in Contents
OnlySaved == \A s \in Streams : \A k \in 1..Len(disk[s]) : disk[s][k] \in saved \cup {Broken}
Isolation == [][\A a, b \in DOMAIN mem : (a # b /\ mem'[a] # mem[a]) => mem'[b] = mem[b]]_vars
=============================================================================
