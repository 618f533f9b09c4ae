---------------------------- MODULE ForwardTrace ----------------------------
(***************************************************************************)
(* Conformance of recorded forward passes with Forward.tla (property C03): *)
(* every execution, every value an operator read from its operands and     *)
(* every value another goroutine read.                                     *)
(***************************************************************************)
EXTENDS Graphs, RealArith, TLC, IOUtils

Trace == LoadTrace(IOEnv.TRACE)
VARIABLES i, k, started, val   \* val[n]: <<>> or the value operator n has computed
vars == <<i, k, started, val>>

E == Trace[i]
Rep(why) == PrintT(<<"MISMATCH", i, E.key, why>>)
Close(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : RClose(a[j], b[j], RLit("1e-9"))
Arg(n, q) == E.dag[n][q]
ValueOf(m) == IF m > 0 THEN val[m] ELSE E.leaf
Value(n) ==
  LET na == Len(E.dag[n]) IN
  Force([j \in 1..Len(E.leaf) |->
    RSum(Force([q \in 1..na |-> RMul(E.w[n][q], ValueOf(Arg(n, q))[j])]))])

Problems(e) ==
  CASE e.e = "fstart" -> IF e.n \in started THEN <<"an operator was evaluated twice">> ELSE <<>>
    [] e.e = "fread" ->
         IF ValueOf(Arg(e.n, e.k)) = <<>> THEN <<"an operand was read before it was complete">>
         ELSE IF e.v # ValueOf(Arg(e.n, e.k)) THEN <<"value read from an operand">> ELSE <<>>
    [] e.e = "fend" -> IF val[e.n] # <<>> THEN <<"an operator was evaluated twice">>
                       ELSE IF Close(e.v, Value(e.n)) THEN <<>> ELSE <<"value of an operator">>
    [] e.e = "ran" -> IF val[e.n] = <<>> /\ (~E.async[e.n] \/ E.force)
                      THEN <<"a synchronous run returned before the evaluation">> ELSE <<>>
    [] e.e = "read" ->
         IF val[e.n] = <<>> THEN <<"a value was read before it was complete">>
         ELSE IF e.v # val[e.n] THEN <<"value read from an operator">> ELSE <<>>

EndProblems == IF \A n \in 1..Len(E.dag) : val[n] # <<>> THEN <<>> ELSE <<"an operator was not evaluated">>

Goto(j) ==
  /\ i' = j /\ k' = 1 /\ started' = {}
  /\ val' = IF j > Len(Trace) THEN <<>> ELSE [n \in 1..Len(Trace[j].dag) |-> <<>>]
Init == i = 0 /\ k = 1 /\ started = {} /\ val = <<>>

Apply(e) ==
  /\ started' = IF e.e = "fstart" THEN started \cup {e.n} ELSE started
  /\ val' = IF e.e = "fend" THEN [val EXCEPT ![e.n] = e.v] ELSE val
  /\ k' = k + 1 /\ i' = i

Next ==
  /\ i <= Len(Trace)
  /\ IF i = 0 THEN Goto(1)
     ELSE IF E.outcome # "ok" THEN Rep(<<"outcome " \o E.outcome>>) /\ Goto(i + 1)
     ELSE IF k > Len(E.ev)
     THEN (IF EndProblems = <<>> THEN TRUE ELSE Rep(EndProblems)) /\ Goto(i + 1)
     ELSE LET pr == Problems(E.ev[k]) IN
          IF pr = <<>> THEN Apply(E.ev[k]) ELSE Rep(pr) /\ Goto(i + 1)
Spec == Init /\ [][Next]_vars
View == <<i, k>>
Counted == TLCSet(1, i - 1)
Done == PrintT(<<"CONSUMED", TLCGet(1), Len(Trace)>>)
=============================================================================
