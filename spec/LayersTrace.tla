----------------------------- MODULE LayersTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded applications of layers, attention, recurrent    *)
(* networks, conditional random fields and losses with Layers.tla          *)
(* (properties C19 to C25).                                                *)
(*                                                                         *)
(* A line records the tensors t, the model m, the call, its results ys,    *)
(* the gradients gys given to the results before Backward, and the         *)
(* gradients that Backward left on every tensor.  These are compared with  *)
(* the derivative of the definition in a direction: for each tensor in     *)
(* chk, the sum of (gradient * direction) over its elements equals the sum *)
(* of (gy * derivative of y) over all results, where the direction gives   *)
(* every element a different weight.                                       *)
(***************************************************************************)
EXTENDS Layers, Construct, TLC, IOUtils

Trace == LoadTrace(IOEnv.TRACE)
VARIABLE i
vars == <<i>>

Tol(e) == IF e.dt = "f32" THEN RLit("1e-3") ELSE RLit("1e-7")
GTol(e) == IF e.dt = "f32" THEN RLit("5e-3") ELSE RLit("2e-5")

Tensors(e) == Force([k \in 1..Len(e.t) |-> [sh |-> e.t[k].sh, v |-> e.t[k].v]])
PickAll(T, ps) == Seq1(Len(ps), LAMBDA p : Pick(T, ps[p]))
StateOf(T, s) == [Y |-> IF s.Y = 0 THEN <<>> ELSE T[s.Y], Cell |-> IF s.Cell = 0 THEN <<>> ELSE T[s.Cell]]
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)

EvalOne(e, T) ==
  CASE e.mode = "fwd" -> Forward(T, e.m, Pick(T, e.xs))
    [] e.mode = "rnn" ->
         LET run == RnnRun(T, e.m, StateOf(T, e.s0), Pick(T, e.xs))
             \* one of the states (0: the initial one) is continued a second time
             ss == Append(run, RnnStep(T, e.m, IF e.from = 0 THEN StateOf(T, e.s0) ELSE run[e.from], T[e.x2]))
         IN  Flat(Seq1(Len(ss), LAMBDA k : IF e.m.kind = "lstm.Model" THEN <<ss[k].Y, ss[k].Cell>> ELSE <<ss[k].Y>>))
    [] e.mode = "attention" ->
         LET q == Pick(T, e.q)
             k == T[e.k]
             v == T[e.v]
             w == Seq1(Len(q), LAMBDA n : Weights(q[n], k, IF e.causal THEN n + Rows(k) - Len(q) ELSE Rows(k), Item(T[e.scale])))
         IN  Seq1(Len(q), LAMBDA n : Attend(w[n], v)) \o w
    [] e.mode = "self" ->
         LET a == SelfAttention(T, e.m, PickAll(T, e.qs), PickAll(T, e.xs))
         IN  a.y \o a.w \o <<a.k, a.v>>
    [] e.mode = "multi" ->
         LET a == MultiHead(T, e.m, PickAll(T, e.qs), PickAll(T, e.xs))
         IN  a.y \o Flat(Seq1(Len(a.h), LAMBDA h : a.h[h].w \o <<a.h[h].k, a.h[h].v>>))
    [] e.mode = "bn" -> BatchTrain(Pick(T, e.xs), T[e.m.W], T[e.m.B])
    [] e.mode = "crf" -> <<Scal(CrfNll(T[e.m.TransitionScores], Pick(T, e.xs), e.gold))>>
    [] e.mode = "loss" -> <<Scal(Loss(T, e.a))>>
    [] e.mode = "decode" -> <<>>

(* Several goroutines use one model at once (Shared.tla): each gets what it *)
(* would get alone, and the gradients are the sums of what they contribute. *)
Call(e, k) == [m |-> e.m] @@ e.calls[k]
Eval(e, T) == IF e.mode = "shared" THEN Flat(Seq1(Len(e.calls), LAMBDA k : EvalOne(Call(e, k), T))) ELSE EvalOne(e, T)

ValueProblems(e, Y) ==
  IF Len(Y) # Len(e.ys) THEN <<"number of results">>
  ELSE IF \E k \in 1..Len(Y) : Y[k].sh # e.ys[k].sh THEN <<"shape of a result">>
  ELSE IF \E k \in 1..Len(Y) : ~SeqClose(Y[k].v, e.ys[k].v, Tol(e)) THEN <<"value of a result">>
  ELSE <<>>

Dir(n, s) == Force([k \in 1..n |-> R(2 * ((k * 7 + s * 3 + (k * k)) % 11) - 9) \oslash R(10)])
GradProblem(e, T, j) ==
  LET g == e.gx[j]
      d == Dir(Size(T[j]), j + Len(e.t))
      Y == Eval(e, Force([n \in 1..Len(T) |-> IF n = j THEN PerturbBy(T[j], d) ELSE T[n]]))
      want == RSum(Seq1(Len(Y), LAMBDA k : IF e.gys[k].has THEN DotDer(e.gys[k].v, Y[k]) ELSE R0))
      got == IF g.has THEN RDot(g.v, d) ELSE R0
  IN  ~RClose(want, got, GTol(e))
GradProblems(e, T) ==
  (IF \E j \in 1..Len(e.t) : e.gx[j].has /\ ~e.t[j].rg THEN <<"gradient on a tensor that requires none">> ELSE <<>>)
  \o (IF \E j \in 1..Len(e.t) : e.gx[j].has /\ e.gx[j].sh # e.t[j].sh THEN <<"shape of a gradient">>
      ELSE IF \E n \in 1..Len(e.chk) : GradProblem(e, T, e.chk[n])
      THEN <<"value of a gradient">> ELSE <<>>)

(* a decoded sequence of labels is a best one *)
DecodeProblems(e, T) ==
  LET tr == T[e.m.TransitionScores]
      em == Pick(T, e.xs)
  IN  IF Len(e.path) # Len(em) \/ \E k \in 1..Len(e.path) : e.path[k] \notin 1..Labels(tr)
      THEN <<"not a sequence of labels">>
      ELSE IF RClose(PathScore(tr, em, e.path), CrfBest(tr, em), RLit("1e-11")) THEN <<>>
      ELSE <<"not a best sequence of labels">>

(* a history of batch normalizations: the running statistics follow it *)
BnProblems(e, T) ==
  LET m == e.m
      mom == Item(T[m.Momentum])
      step(acc, c) ==
        LET xs == Pick(T, c.xs)
            mean == BatchMean(xs)
            dev == BatchDev(xs, mean)
            ys == IF c.train THEN BatchNorm(xs, mean, dev, c.w, c.b)
                  ELSE BatchNorm(xs, acc.mean, acc.dev, c.w, c.b)
            nm == IF c.train THEN Average(acc.mean, mean, mom) ELSE acc.mean
            nd == IF c.train THEN Average(acc.dev, dev, mom) ELSE acc.dev
        IN  [mean |-> nm, dev |-> nd,
             bad |-> acc.bad
               \o (IF \A k \in 1..Len(ys) : Agrees(ys[k], c.ys[k], Tol(e)) THEN <<>> ELSE <<"value of a result">>)
               \o (IF Agrees(nm, c.mean, Tol(e)) /\ Agrees(nd, c.dev, Tol(e)) THEN <<>> ELSE <<"running statistics">>)]
  IN  FoldLeft(step, [mean |-> T[m.Mean], dev |-> T[m.StdDev], bad |-> <<>>], e.calls).bad

(* parameters that a new layer keeps from training: only what its configuration masks *)
MayBeFrozen(m, p) ==
  CASE m.kind \in {"convolution1d.Model", "convolution2d.Model"} ->
         \E k \in 1..Len(m.K) : /\ p \in {m.K[k], m.B[k]}
                               /\ Len(m.Config.Mask) > 0
                               /\ m.Config.Mask[((k - 1) % m.Config.InputChannels) + 1] = 0
    [] m.kind \in {"linear.Model", "main.Stack", "activation.Model"} -> TRUE   \* the harness itself freezes biases
    [] OTHER -> FALSE

(* operators work in their own goroutines, where a panic ends the program *)
Refused(o) == o \notin {"ok", "stuck", "deadlock"}
Problems(e) ==
  LET T == Tensors(e)
      fits == IF e.mode = "fwd" THEN Accepts(T, e.m, Pick(T, e.xs))
              ELSE IF e.mode = "shared" THEN \A k \in 1..Len(e.calls) : e.calls[k].mode = "fwd" => Accepts(T, e.m, Pick(T, e.calls[k].xs))
              ELSE TRUE
  IN  IF ~fits
      THEN IF Refused(e.outcome) THEN <<>> ELSE <<"sizes that do not fit were accepted", e.outcome>>
      ELSE IF e.mode = "fwd" /\ \E k \in 1..Len(e.cold) : ~MayBeFrozen(e.m, e.cold[k]) THEN <<"a parameter in use cannot be trained">>
      ELSE IF e.outcome # "ok" THEN <<"outcome " \o e.outcome>>
      ELSE (IF e.intact THEN <<>> ELSE <<"an operand or parameter was changed">>)
           \o (CASE e.mode = "decode" -> DecodeProblems(e, T)
                 [] e.mode = "bnhist" -> BnProblems(e, T)
                 [] e.mode = "shared" /\ \E k \in 1..Len(e.calls) : e.calls[k].mode = "decode" /\ DecodeProblems(Call(e, k), T) # <<>>
                      -> <<"not a best sequence of labels">>
                 [] OTHER -> LET v == ValueProblems(e, Eval(e, T))
                               IN  v \o (IF e.back /\ v \in {<<>>, <<"value of a result">>} THEN GradProblems(e, T) ELSE <<>>))

Init == i = 1
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] pr == IF e.mode = "new" THEN NewProblems(e) ELSE IF e.mode = "name" THEN NameProblems(e) ELSE Problems(e) IN
       IF pr = <<>> THEN TRUE ELSE PrintT(<<"MISMATCH", i, e.key, pr>>)
  /\ i' = i + 1
Spec == Init /\ [][Next]_vars

(* the two definitions of the quantities of a random field agree *)
CrfAgree ==
  \A i1 \in {1, 2} :
    LET tr == Mk(3, 3, LAMBDA a, b : R(a * i1 - 2 * b) \oslash R(3))
        em == Seq1(3 + i1 - 1, LAMBDA k : Col(<<R(k) \oslash R(2), R(1 - k * i1)>>))
    IN  /\ RClose(CrfTotalDef(tr, em), CrfRec(tr, em, LogSumExpSeq), RLit("1e-12"))
        /\ RClose(CrfBestDef(tr, em), CrfRec(tr, em, MaxSeq), RLit("1e-12"))
ASSUME CrfAgree
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
