------------------------------- MODULE EmbTrace -------------------------------
(***************************************************************************)
(* Conformance of recorded histories of embedding tables with EmbTable     *)
(* (property C18).  After each operation the driver recorded every row,    *)
(* what a traversal for training and a stream of parameters yielded, the   *)
(* count of rows with gradients, and what the look-ups still held show.    *)
(***************************************************************************)
EXTENDS EmbTable, TLC, IOUtils

Trace == LoadTrace(IOEnv.TRACE)
VARIABLES i, k, T
vars == <<i, k, T>>
E == Trace[i]
C == E.steps[k]
Rep(why) == PrintT(<<"MISMATCH", i, E.key, why>>)
Tol == IF E.dt = "f32" THEN RLit("1e-5") ELSE RLit("1e-12")
Close(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : RClose(a[j], b[j], Tol)

RowProblems(N, o) ==
  IF Len(o.v) # Size(N) THEN <<"number of rows">>
  ELSE IF \E r \in 1..Size(N) : ~Close(o.v[r], N[r].v) THEN <<"value of a row">>
  ELSE IF \E r \in 1..Size(N) : o.has[r] # (N[r].g # <<>>) THEN <<"which rows have gradients">>
  ELSE IF \E r \in 1..Size(N) : ~Close(o.g[r], N[r].g) THEN <<"gradient of a row">>
  ELSE <<>>
Once(s, S) == Len(s) = Cardinality(S) /\ Rng(s) = S
Problems(N, o) ==
  (IF C.err # Refused(T, C) THEN <<"error of a look-up">> ELSE <<>>)
  \o RowProblems(N, o)
  \o (IF Once(o.trav, Holding(N)) THEN <<>> ELSE <<"traversal for training">>)
  \o (IF Once(o.stream, Holding(N)) THEN <<>> ELSE <<"stream of parameters">>)
  \o (IF o.count = Cardinality(Holding(N)) THEN <<>> ELSE <<"count of rows with gradients">>)
  \o (IF \A h \in 1..Len(o.held) : LET x == o.held[h] IN
           Close(x.v, N[x.row].v) /\ x.has = (N[x.row].g # <<>>) /\ Close(x.g, N[x.row].g) /\ x.rg = N[x.row].rg
      THEN <<>> ELSE <<"a look-up shows something else than its row">>)

Goto(j) ==
  /\ i' = j /\ k' = 1
  /\ IF j <= Len(Trace) THEN T' = Force([r \in 1..Len(Trace[j].v0) |-> [v |-> Trace[j].v0[r], g |-> <<>>, rg |-> TRUE]])
     ELSE T' = <<>>
Init == i = 0 /\ k = 1 /\ T = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ IF i = 0 THEN Goto(1)
     ELSE IF E.outcome # "ok" THEN Rep(<<"outcome " \o E.outcome>>) /\ Goto(i + 1)
     ELSE IF k > Len(E.steps) THEN Goto(i + 1)
     ELSE LET N == Force(Apply(T, C)) pr == Problems(N, C.obs) IN
          IF pr # <<>> THEN Rep(pr) /\ Goto(i + 1)
          ELSE T' = N /\ k' = k + 1 /\ i' = i
Spec == Init /\ [][Next]_vars
View == <<i, k>>
Counted == TLCSet(1, i - 1)
Done == PrintT(<<"CONSUMED", TLCGet(1), Len(Trace)>>)
===============================================================================
