------------------------------- MODULE MatTrace -------------------------------
(***************************************************************************)
(* Conformance of recorded histories of matrix operations with MatOps      *)
(* (properties C26 and C27).  After each operation the driver recorded its *)
(* outcome, its results, whether the receiver itself was returned, and     *)
(* every matrix of the pool that differs in any bit from what it was       *)
(* before.  Judged states are adopted, so that rounding does not build up. *)
(***************************************************************************)
EXTENDS MatOps, TLC, IOUtils

Trace == LoadTrace(IOEnv.TRACE)
VARIABLES i, k, P
vars == <<i, k, P>>
E == Trace[i]
C == E.steps[k]
Rep(why) == PrintT(<<"MISMATCH", i, E.key, why>>)

Near(xs, ys, rel, ab) == Len(xs) = Len(ys) /\ \A j \in 1..Len(xs) : RNear(Cv(C.dt, xs[j]), ys[j], rel, ab)
GradOf(g) == IF g.has THEN <<[sh |-> g.sh, v |-> g.v]>> ELSE <<>>
State(o) == [dt |-> o.dt, sh |-> o.sh, v |-> o.v, rg |-> o.rg, g |-> GradOf(o.g)]
Changed(id) == \E j \in 1..Len(C.changed) : C.changed[j].id = id
ChangedTo(id) == State(C.changed[CHOOSE j \in 1..Len(C.changed) : C.changed[j].id = id])
SameGrad(x, y, rel, ab) ==
  Len(x) = Len(y) /\ (x = <<>> \/ (x[1].sh = y[1].sh /\ Near(x[1].v, y[1].v, rel, ab)))

NewProblems(rel, ab) ==
  LET out == Out(P, C) IN
  IF Len(C.new) # Len(out) THEN <<"number of results">>
  ELSE FoldLeft(LAMBDA acc, j : acc \o
         (IF C.new[j].dt # C.dt THEN <<"element type of the result">>
          ELSE IF C.new[j].sh # out[j].sh THEN <<"shape of the result">>
          ELSE IF ~Near(out[j].v, C.new[j].v, rel, ab) THEN <<"values of the result">>
          ELSE IF C.new[j].rg # OutRg(C) \/ C.new[j].g.has THEN <<"gradient of the result">>
          ELSE <<>>), <<>>, [j \in 1..Len(out) |-> j])
UpdProblems(rel, ab) ==
  LET id == C.xs[1]
      want == Upd(P, C)
      got == IF Changed(id) THEN ChangedTo(id) ELSE P[id]
  IN  IF C.new # <<>> THEN <<"number of results">>
      ELSE IF got.dt # want.dt THEN <<"element type of the receiver">>
      ELSE IF got.sh # want.sh THEN <<"shape of the receiver">>
      ELSE IF ~Near(want.v, got.v, IF C.op = "AccGrad" THEN R0 ELSE rel, IF C.op = "AccGrad" THEN R0 ELSE ab) THEN <<"values of the receiver">>
      ELSE IF got.rg # want.rg THEN <<"gradient requirement of the receiver">>
      ELSE IF ~SameGrad(want.g, got.g, IF C.op = "AccGrad" THEN rel ELSE R0, IF C.op = "AccGrad" THEN ab ELSE R0) THEN <<"gradient of the receiver">>
      ELSE IF ~C.self THEN <<"receiver not returned">>
      ELSE <<>>
MathTol == IF C.op = "MathFn" /\ C.fn \in {"Abs", "Max", "Floor", "Ceil", "Round", "F32", "Data32"} THEN R0
           ELSE IF P[C.xs[1]].dt = "f32" THEN RLit("1e-5") ELSE RLit("1e-12")
Problems ==
  IF \E j \in 1..Len(C.changed) : ~(C.op \in InPlace /\ C.changed[j].id = C.xs[1] /\ Pre(P, C)) THEN <<"an unrelated matrix changed">>
  ELSE IF ~Pre(P, C) THEN (IF C.out = "ok" \/ C.new # <<>> THEN <<"bad arguments accepted">> ELSE <<>>)
  ELSE IF C.out # "ok" THEN <<"refused: " \o C.out>>
  ELSE LET rel == Rel(P, C) ab == Abs_(P, C) IN
       CASE C.op \in InPlace -> UpdProblems(rel, ab)
         [] C.op \in Numeric -> IF (IF C.op = "MathFn" THEN Near(Nums(P, C), C.nums, MathTol, MathTol) ELSE Near(Nums(P, C), C.nums, R0, R0)) THEN <<>> ELSE <<"numbers">>
         [] OTHER -> NewProblems(rel, ab)

After ==
  Force([j \in 1..(Len(P) + Len(C.new)) |->
     IF j > Len(P) THEN State(C.new[j - Len(P)]) ELSE IF Changed(j) THEN ChangedTo(j) ELSE P[j]])

Goto(j) ==
  /\ i' = j /\ k' = 1
  /\ P' = IF j <= Len(Trace) /\ Trace[j].outcome = "ok" THEN Force([m \in 1..Len(Trace[j].m0) |-> State(Trace[j].m0[m])]) ELSE <<>>
Init == i = 0 /\ k = 1 /\ P = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ IF i = 0 THEN Goto(1)
     ELSE IF E.outcome # "ok" THEN Rep(<<"outcome " \o E.outcome>>) /\ Goto(i + 1)
     ELSE IF k > Len(E.steps) THEN Goto(i + 1)
     ELSE LET pr == Problems IN
          IF pr # <<>> THEN Rep(<<C.op>> \o pr) /\ Goto(i + 1)
          ELSE P' = After /\ k' = k + 1 /\ i' = i
Spec == Init /\ [][Next]_vars
View == <<i, k>>
Counted == TLCSet(1, i - 1)
Done == PrintT(<<"CONSUMED", TLCGet(1), Len(Trace)>>)
===============================================================================
