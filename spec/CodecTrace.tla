------------------------------ MODULE CodecTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded histories of saves and loads with Codec.tla.    *)
(* Each event records the call, whether it returned an error, and the      *)
(* contents of all objects in memory afterwards.                           *)
(***************************************************************************)
EXTENDS RealArith, TLC, IOUtils

Trace == LoadTrace(IOEnv.TRACE)
Broken == "broken"
VARIABLES i, k, done, mem, disk, saved, failed
vars == <<i, k, done, mem, disk, saved, failed>>
M == INSTANCE Codec WITH Ids <- 1..99, Contents <- {}, Streams <- 1..3, MaxLen <- 99

E == Trace[i]
Ev == E.ev[k]
Rep(why) == PrintT(<<"MISMATCH", i, E.key, why>>)

Step(e) ==
  CASE e.e = "new" -> M!DoNew(e.id, e.c)
    [] e.e = "mutate" -> M!DoMutate(e.id, e.c)
    [] e.e = "save" -> M!DoSave(e.id, e.s)
    [] e.e = "badsave" -> M!DoBrokenSave(e.id, e.s)
    [] e.e = "cut" -> M!DoCut(e.s)
    [] e.e = "load" -> M!DoLoad(e.s, e.id)
    [] e.e = "badload" -> failed' = TRUE /\ UNCHANGED <<mem, disk, saved>>
    [] OTHER -> failed' = FALSE /\ UNCHANGED <<mem, disk, saved>>

(* what was observed, against the state that the step has led to *)
Problems(e) ==
  IF e.err # failed
  THEN <<IF e.err THEN "unexpected error from " \o e.e ELSE "no error from " \o e.e>>
  ELSE IF {e.mem[n][1] : n \in 1..Len(e.mem)} # DOMAIN mem THEN <<"objects after " \o e.e>>
  ELSE IF \E n \in 1..Len(e.mem) : mem[e.mem[n][1]] # e.mem[n][2]
  THEN <<(IF \E n \in 1..Len(e.mem) : e.mem[n][1] = e.id /\ mem[e.id] # e.mem[n][2]
          THEN "content of the object after " ELSE "content of another object after ") \o e.e>>
  ELSE IF e.bad # <<>> THEN <<"no error from a load or save that was cut off">> ELSE <<>>

(* a shared table is not saved: there is nothing to load, and loading that *)
(* leaves the table that is shared as it is                                *)
SharedProblems ==
  (IF E.none = 0 /\ E.accepts THEN <<>> ELSE <<"a shared table is not saved as nothing">>)
  \o (IF E.back = E.c THEN <<>> ELSE <<"what is beside a shared table">>)
  \o (IF E.keeps THEN <<>> ELSE <<"the table that is shared after a load">>)
  \o (IF E.refuses THEN <<>> ELSE <<"bytes for a shared table">>)

Fresh == mem' = <<>> /\ disk' = [s \in 1..3 |-> <<>>] /\ saved' = {} /\ failed' = FALSE
Goto(j) == i' = j /\ k' = 1 /\ done' = FALSE /\ Fresh
Init == i = 1 /\ k = 1 /\ done = FALSE /\ mem = <<>> /\ disk = [s \in 1..3 |-> <<>>] /\ saved = {} /\ failed = FALSE
Next ==
  /\ i <= Len(Trace)
  /\ IF E.outcome # "ok" THEN Rep(<<"outcome " \o E.outcome>>) /\ Goto(i + 1)
     ELSE IF E.mode = "shared" THEN (IF SharedProblems = <<>> THEN TRUE ELSE Rep(SharedProblems)) /\ Goto(i + 1)
     ELSE IF k > Len(E.ev) THEN Goto(i + 1)
     ELSE IF ~done THEN Step(Ev) /\ done' = TRUE /\ UNCHANGED <<i, k>>
     ELSE IF Problems(Ev) # <<>> THEN Rep(Problems(Ev)) /\ Goto(i + 1)
     ELSE k' = k + 1 /\ done' = FALSE /\ UNCHANGED <<i, mem, disk, saved, failed>>
Spec == Init /\ [][Next]_vars
View == <<i, k, done>>
Counted == TLCSet(1, i - 1)
Done == PrintT(<<"CONSUMED", TLCGet(1), Len(Trace)>>)
=============================================================================
