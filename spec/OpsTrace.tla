------------------------------ MODULE OpsTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded operator executions (properties C05 and C06).   *)
(*                                                                         *)
(* One line of the trace is one execution of one operator on fresh         *)
(* operands: its result, and what Backward with output gradient gy left on *)
(* every operand.  An execution is admitted iff Problems(e) is empty.      *)
(***************************************************************************)
EXTENDS Ops, FiniteSetsExt, TLC, IOUtils

Trace == LoadTrace(IOEnv.TRACE)
VARIABLE i
vars == <<i>>

Tol(e) == IF e.dt = "f32" THEN RLit("3e-4") ELSE RLit("1e-8")
GTol(e) == IF e.dt = "f32" THEN RLit("1e-3")
           ELSE IF e.op = "GELU" THEN RLit("2e-5") ELSE RLit("1e-7")

Mat(x) == [sh |-> x.sh, v |-> x.v]
Operands(e) == Force([k \in 1..Len(e.xs) |-> Mat(e.xs[k])])
Used(e) ==   \* the operands that take part
  IF e.op = "Pad" THEN LET n == Len(e.xs) - 1 IN {k \in 1..n : k <= e.p.k} \cup (IF e.p.k > n THEN {n + 1} ELSE {})
  ELSE 1..Len(e.xs)
AnyGrad(e) == \E k \in Used(e) : e.xs[k].rg

(* operators that only move values keep them exactly *)
Moving == {"Copy", "Neg", "AppendRows", "At", "AtVec", "ColView", "RowView", "Concat", "Flatten", "Reshape", "Slice",
           "SplitVec", "Stack", "T", "RotateR"}
SameValues(e, v) ==
  IF e.op \in Moving THEN Len(v) = Len(e.y.v) /\ \A k \in 1..Len(v) : REq(v[k], e.y.v[k])
  ELSE SeqClose(v, e.y.v, Tol(e))

FwdProblems(e) ==
  IF e.outcome # "ok" THEN <<"outcome " \o e.outcome>> ELSE
  LET y == OpFwd(e.op, e.p, Operands(e))
  IN  (IF y.sh # e.y.sh THEN <<"shape of the result">>
       ELSE IF ~SameValues(e, y.v) THEN <<"value of the result">> ELSE <<>>)
      \o (IF e.intact THEN <<>> ELSE <<"an operand was changed">>)
      \o (IF e.isolated THEN <<>> ELSE <<"result and operands share storage">>)

(* One tensor may stand in several operand positions: it receives the sum of  *)
(* their gradients.                                                          *)
Positions(e, k) == {j \in 1..Len(e.xs) : e.xs[j].rep = e.xs[k].rep}
Expected(e, k, n) ==   \* the n-th element
  FoldSet(LAMBDA j, acc : acc \oplus VjpAt(e.op, e.p, Operands(e), e.gy, j, n), R0, Positions(e, k))

OneGrad(e, k) ==
  LET o == e.gx[k]
      at == e.xs[k].chk   \* the elements that are looked at: all, unless there are very many
      g == Force([n \in 1..Len(at) |-> Expected(e, k, at[n])])
  IN  IF ~e.xs[k].rg THEN IF o.has THEN <<"gradient on a constant operand">> ELSE <<>>
      ELSE IF ~o.has  \* no gradient stands for zero
           THEN IF \A n \in 1..Len(g) : REq(g[n], R0) THEN <<>> ELSE <<"operand without gradient">>
      ELSE (IF o.sh # e.xs[k].sh THEN <<"shape of an operand gradient">> ELSE <<>>)
           \o (IF Len(o.v) # Len(e.xs[k].v) THEN <<"size of an operand gradient">>
               ELSE IF ~SeqClose(g, [n \in 1..Len(at) |-> o.v[at[n]]], GTol(e)) THEN <<"value of an operand gradient">>
               ELSE <<>>)

BwdProblems(e) ==
  IF e.outcome # "ok" THEN <<"outcome " \o e.outcome>>
  ELSE IF e.yrg # AnyGrad(e) THEN <<"RequiresGrad of the result">>
  ELSE FoldLeft(LAMBDA acc, k : acc \o OneGrad(e, k), <<>>, [k \in 1..Len(e.xs) |-> k])
       \o (IF e.intact THEN <<>> ELSE <<"an operand or output gradient was changed">>)

Problems(e) == IF e.mode = "fwd" THEN FwdProblems(e) ELSE BwdProblems(e)

Init == i = 1
Next ==
  \/ /\ i <= Len(Trace)
     /\ LET e == Trace[i] pr == Problems(e) IN
          IF pr = <<>> THEN TRUE ELSE PrintT(<<"MISMATCH", i, e.key, pr>>)
     /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
