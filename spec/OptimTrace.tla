----------------------------- MODULE OptimTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded training runs with Optim.tla (properties C11,   *)
(* C12, C13).  The machine is stepped along each recorded trajectory:      *)
(* "step" moves values and states by the update equations, "reload" saves  *)
(* everything and continues with what was loaded, which changes nothing;   *)
(* "put" replaces values of some parameters, which start without history.  *)
(***************************************************************************)
EXTENDS Optim, TLC, IOUtils

Trace == LoadTrace(IOEnv.TRACE)
VARIABLES i, k, S, W
vars == <<i, k, S, W>>

E == Trace[i]
C == E.steps[k]
Rep(why) == PrintT(<<"MISMATCH", i, E.key, why>>)
Tol == IF E.dt = "f32" THEN RLit("2e-3") ELSE RLit("1e-8")
Close(a, b, tol) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : RClose(a[j], b[j], tol)
Same(a, b) == Len(a) = Len(b) /\ \A p \in 1..Len(a) : a[p] = b[p]

(* one recorded step, reload, or replacement of some values ("put") *)
Put(p) == C.kind = "put" /\ \E j \in 1..Len(C.which) : C.which[j] = p
NextW == CASE C.kind = "step" -> StepValue(E.method, C.c, C.t, S, W, C.g)
           [] C.kind = "put" -> Force([p \in 1..Len(W) |-> IF Put(p) THEN C.w[p] ELSE W[p]])
           [] OTHER -> W
NextS == CASE C.kind = "step" -> StepState(E.method, C.c, C.t, S, W, C.g)
           [] C.kind = "put" -> [p \in 1..Len(W) |-> IF Put(p) THEN InitState(E.method, Len(C.w[p])) ELSE S[p]]
           [] OTHER -> S
StepProblems ==
  IF C.err THEN <<"the step returned an error">>
  ELSE IF C.kind = "reload" /\ ~Same(C.w, IF k = 1 THEN E.w0 ELSE E.steps[k - 1].w)
  THEN <<"values changed by saving and loading">>
  ELSE IF C.kind = "step" /\ ~C.kept THEN <<"a gradient tensor was modified">>
  ELSE IF C.kind = "step" /\ C.left # 0 THEN <<"a gradient was not cleared">>
  ELSE IF \E p \in 1..Len(W) : ~Close(C.w[p], NextW[p], Tol) THEN <<"values after the step">>
  ELSE IF \E p \in 1..Len(W) : C.kind = "step" /\ C.g[p] = <<>> /\ C.w[p] # (IF k = 1 THEN E.w0 ELSE E.steps[k - 1].w)[p]
  THEN <<"a parameter without gradient changed">>
  ELSE <<>>
EndProblems ==
  IF E.ref # <<>> /\ ~Same(E.ref, IF Len(E.steps) = 0 THEN E.w0 ELSE E.steps[Len(E.steps)].w)
  THEN <<"the resumed training differs from the uninterrupted one">> ELSE <<>>

(* a step in which parameters carry a state that is not this method's *)
AlienProblems ==
  LET S0 == [p \in 1..Len(E.w0) |-> InitState(E.method, Len(E.w0[p]))]
      want == StepValue(E.method, E.c, R1, S0, E.w0, E.g)
      bad == {p \in 1..Len(E.w0) : E.alien[p] /\ E.g[p] # <<>>}
  IN  IF E.err # (bad # {}) THEN <<IF E.err THEN "error without a failure" ELSE "the failure was not reported">>
      ELSE IF \E p \in 1..Len(E.w0) : ~E.kept[p] THEN <<"a foreign state was replaced">>
      ELSE IF \E p \in 1..Len(E.w0) : (p \in bad \/ E.g[p] = <<>>) /\ (E.w[p] # E.w0[p] \/ E.has[p] # (E.g[p] # <<>>))
      THEN <<"a parameter that failed, or without gradient, was touched">>
      ELSE IF \E p \in 1..Len(E.w0) : p \notin bad /\ E.g[p] # <<>> /\
                ~(IF E.has[p] THEN E.err /\ E.w[p] = E.w0[p] ELSE Close(E.w[p], want[p], Tol))
      THEN <<"a parameter neither updated nor untouched">>
      ELSE <<>>

DecayProblems ==
  LET want == IF E.fn = "exponential" THEN Exponential(E.final, E.times, E.lr, E.t)
              ELSE Hyperbolic(E.init, E.final, E.rate, E.lr, E.t)
  IN  IF RClose(E.out, want, RLit("1e-9")) THEN <<>> ELSE <<"learning rate">>

(* moments are averages: their rates are in [0, 1) *)
Rate(b) == RLe(R0, b) /\ RLt(b, R1)
(* a decay goes down; a norm is of a type above one *)
Sensible ==
  CASE "beta1" \in DOMAIN E -> Rate(E.beta1) /\ Rate(E.beta2)
    [] "final" \in DOMAIN E -> RLe(E.final, E.init)
    [] OTHER -> RLt(R1, E.ptype)
ConfigProblems ==
  IF Sensible
  THEN IF E.outcome = "ok" THEN <<>> ELSE <<"a configuration was refused">>
  ELSE IF E.outcome \in {"ok", "stuck", "deadlock"} THEN <<"an impossible configuration was accepted">> ELSE <<>>

(* a clipper that is refused has touched nothing *)
ClipConfProblems ==
  ConfigProblems
  \o (IF Same(E.w0, E.w1) /\ (Sensible \/ Same(E.g0, E.g1)) THEN <<>> ELSE <<"changed by a refused clipper">>)

(* clipping *)
Inside(v, xs) == \A j \in 1..Len(xs) : RLe(RAbs(xs[j]), v)
ClipProblems ==
  LET before == E.g0 after == E.g1 tol == IF E.dt = "f32" THEN RLit("1e-5") ELSE RLit("1e-8") IN
  IF ~Same(E.w0, E.w1) THEN <<"a parameter value changed">>
  ELSE IF Len(after) # Len(before) \/ \E p \in 1..Len(before) : Len(before[p]) # Len(after[p])
  THEN <<"shape or presence of a gradient">>
  ELSE IF E.kind = "value"
  THEN LET want == ClipValue(E.limit, before) IN
       IF \E p \in 1..Len(before) : \E j \in 1..Len(before[p]) :
            IF RLe(RAbs(before[p][j]), E.limit) THEN after[p][j] # before[p][j]
            ELSE ~RClose(after[p][j], want[p][j], tol)
       THEN <<"clipped values">> ELSE <<>>
  ELSE LET n0 == PNorm(AllOf(before), E.ptype, E.inf) IN
       IF RLe(n0, E.limit)
       THEN IF Same(before, after) THEN <<>> ELSE <<"gradients changed although within the limit">>
       ELSE LET f == E.limit \oslash n0 IN
            \* the powers of huge gradients are not representable: they may vanish instead
            IF E.huge /\ \A p \in 1..Len(after) : \A j \in 1..Len(after[p]) : REq(after[p][j], R0) THEN <<>>
            ELSE IF \E p \in 1..Len(before) : \E j \in 1..Len(before[p]) :
                      ~RNear(after[p][j], f \otimes before[p][j], RLit("2e-5"), RLit("2e-7"))
            THEN <<"gradients not scaled to the limit">> ELSE <<>>

Goto(j) ==
  /\ i' = j /\ k' = 1
  /\ IF j <= Len(Trace) /\ Trace[j].mode = "traj" /\ Trace[j].outcome = "ok"
     THEN /\ W' = Force(Trace[j].w0)
          /\ S' = [p \in 1..Len(Trace[j].w0) |-> InitState(Trace[j].method, Len(Trace[j].w0[p]))]
     ELSE W' = <<>> /\ S' = <<>>
Init == i = 0 /\ k = 1 /\ S = <<>> /\ W = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ IF i = 0 THEN Goto(1)
     ELSE IF E.mode = "config" THEN (IF ConfigProblems = <<>> THEN TRUE ELSE Rep(ConfigProblems)) /\ Goto(i + 1)
     ELSE IF E.mode = "clipconf" THEN (IF ClipConfProblems = <<>> THEN TRUE ELSE Rep(ClipConfProblems)) /\ Goto(i + 1)
     ELSE IF E.outcome # "ok" THEN Rep(<<"outcome " \o E.outcome>>) /\ Goto(i + 1)
     ELSE IF E.mode = "alien" THEN (IF AlienProblems = <<>> THEN TRUE ELSE Rep(AlienProblems)) /\ Goto(i + 1)
     ELSE IF E.mode = "decay" THEN (IF DecayProblems = <<>> THEN TRUE ELSE Rep(DecayProblems)) /\ Goto(i + 1)
     ELSE IF E.mode = "clip" THEN (IF ClipProblems = <<>> THEN TRUE ELSE Rep(ClipProblems)) /\ Goto(i + 1)
     ELSE IF k > Len(E.steps)
     THEN (IF EndProblems = <<>> THEN TRUE ELSE Rep(EndProblems)) /\ Goto(i + 1)
     ELSE IF StepProblems # <<>> THEN Rep(StepProblems) /\ Goto(i + 1)
     ELSE W' = NextW /\ S' = NextS /\ k' = k + 1 /\ i' = i
Spec == Init /\ [][Next]_vars
View == <<i, k>>
Counted == TLCSet(1, i - 1)
Done == PrintT(<<"CONSUMED", TLCGet(1), Len(Trace)>>)
=============================================================================
