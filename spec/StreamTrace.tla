---------------------------- MODULE StreamTrace ----------------------------
(***************************************************************************)
(* Conformance of recorded streams with Stream.tla (property C15): every   *)
(* event seen by a consumer must be explained by steps of that machine,    *)
(* the producer's own steps in between being chosen as late as possible.   *)
(***************************************************************************)
EXTENDS RealArith, TLC, IOUtils

Trace == LoadTrace(IOEnv.TRACE)
VARIABLES i, k, next, closed, cancelled
vars == <<i, k, next, closed, cancelled>>
E == Trace[i]
N == Len(E.want)
Rep(why) == PrintT(<<"MISMATCH", i, E.key, why>>)

(* the offer that delivers parameter id: the next one, or after skipping when cancelled *)
Offers(id) == {n \in next..N : E.want[n] = id /\ (cancelled \/ n = next)}
Problems(e) ==
  CASE e.e = "recv" -> IF closed THEN <<"delivered after the end">>
                       ELSE IF Offers(e.n) = {} THEN <<"not the next parameter">> ELSE <<>>
    [] e.e = "close" -> IF next <= N /\ ~cancelled THEN <<"the stream ended early">> ELSE <<>>
    [] OTHER -> <<>>
Apply(e) ==
  /\ next' = IF e.e = "recv" THEN 1 + (CHOOSE n \in Offers(e.n) : \A m \in Offers(e.n) : n <= m) ELSE next
  /\ closed' = (closed \/ e.e = "close")
  /\ cancelled' = (cancelled \/ e.e = "cancel")
  /\ k' = k + 1 /\ i' = i
Goto(j) == i' = j /\ k' = 1 /\ next' = 1 /\ closed' = FALSE /\ cancelled' = FALSE
EndProblems == IF E.left > 0 THEN <<"a goroutine is left behind">>
               ELSE IF E.reader = "reads" /\ ~closed THEN <<"the stream was never closed">> ELSE <<>>

Init == i = 1 /\ k = 1 /\ next = 1 /\ closed = FALSE /\ cancelled = FALSE
Next ==
  /\ i <= Len(Trace)
  /\ IF E.outcome # "ok" THEN Rep(<<"outcome " \o E.outcome>>) /\ Goto(i + 1)
     ELSE IF k > Len(E.ev) THEN (IF EndProblems = <<>> THEN TRUE ELSE Rep(EndProblems)) /\ Goto(i + 1)
     ELSE LET pr == Problems(E.ev[k]) IN IF pr = <<>> THEN Apply(E.ev[k]) ELSE Rep(pr) /\ Goto(i + 1)
Spec == Init /\ [][Next]_vars
View == <<i, k>>
Counted == TLCSet(1, i - 1)
Done == PrintT(<<"CONSUMED", TLCGet(1), Len(Trace)>>)
=============================================================================
