--------------------------- MODULE OptimizeTrace ---------------------------
(***************************************************************************)
(* Conformance of recorded optimization steps with Optimize.tla            *)
(* (properties C09 and C10).                                               *)
(***************************************************************************)
EXTENDS RealArith, FiniteSets, TLC, IOUtils

Trace == LoadTrace(IOEnv.TRACE)
VARIABLES i, c, k, started, upd, failed, ret
vars == <<i, c, k, started, upd, failed, ret>>

E == Trace[i]
C == E.steps[c]
Rep(why) == PrintT(<<"MISMATCH", i, E.key, why>>)
Streamed == {E.order[j] : j \in 1..Len(E.order)}
Has == {p \in 1..E.n : C.g0[p] # <<>>}
Close(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : RClose(a[j], b[j], RLit("1e-6"))

Problems(e) ==
  CASE e.e = "start" ->
         IF ret THEN <<"an update began after the return">>
         ELSE IF e.n \notin Streamed THEN <<"an unknown parameter was updated">>
         ELSE IF e.n \notin Has THEN <<"a parameter without gradient was updated">>
         ELSE IF e.n \in started THEN <<"a parameter was updated twice">> ELSE <<>>
    [] e.e \in {"end", "fail"} -> IF ret THEN <<"an update ended after the return">> ELSE <<>>
    [] e.e = "ret" ->
         IF upd \cup failed # started THEN <<"an update was going on at the return">>
         ELSE IF C.err = 0 /\ failed # {} THEN <<"no error although an update failed">>
         ELSE IF C.err # 0 /\ C.err \notin failed THEN <<"an error that no update returned">>
         ELSE IF C.err = 0 /\ Streamed \cap Has # upd THEN <<"not every parameter was updated">>
         ELSE <<>>

EndProblems ==
  IF \A p \in 1..E.n :
       IF p \in upd
       THEN /\ Close(C.v1[p], Force([j \in 1..Len(C.v0[p]) |-> RSub(C.v0[p][j], RMul(E.lr, C.g0[p][j]))]))
            /\ C.g1[p] = <<>> /\ C.s1[p] = C.s0[p] + 1
       ELSE C.v1[p] = C.v0[p] /\ C.g1[p] = C.g0[p] /\ C.s1[p] = C.s0[p]
  THEN <<>> ELSE <<"value, gradient or state of a parameter after the step">>

Goto(j, q) == i' = j /\ c' = q /\ k' = 1 /\ started' = {} /\ upd' = {} /\ failed' = {} /\ ret' = FALSE
Init == i = 1 /\ c = 1 /\ k = 1 /\ started = {} /\ upd = {} /\ failed = {} /\ ret = FALSE
Apply(e) ==
  /\ started' = IF e.e = "start" THEN started \cup {e.n} ELSE started
  /\ upd' = IF e.e = "end" THEN upd \cup {e.n} ELSE upd
  /\ failed' = IF e.e = "fail" THEN failed \cup {e.n} ELSE failed
  /\ ret' = (ret \/ e.e = "ret")
  /\ k' = k + 1 /\ UNCHANGED <<i, c>>
Next ==
  /\ i <= Len(Trace)
  /\ IF E.outcome # "ok" THEN Rep(<<"outcome " \o E.outcome>>) /\ Goto(i + 1, 1)
     ELSE IF c > Len(E.steps) THEN Goto(i + 1, 1)
     ELSE IF k > Len(C.ev)
     THEN IF EndProblems = <<>> THEN Goto(i, c + 1) ELSE Rep(EndProblems) /\ Goto(i + 1, 1)
     ELSE LET pr == Problems(C.ev[k]) IN
          IF pr = <<>> THEN Apply(C.ev[k]) ELSE Rep(pr) /\ Goto(i + 1, 1)
Spec == Init /\ [][Next]_vars
View == <<i, c, k>>
Counted == TLCSet(1, i - 1)
Done == PrintT(<<"CONSUMED", TLCGet(1), Len(Trace)>>)
=============================================================================
