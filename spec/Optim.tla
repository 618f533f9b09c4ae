------------------------------- MODULE Optim -------------------------------
(***************************************************************************)
(* The update equations of the optimizers (property C11).  A machine state *)
(* is the time step, the value of every parameter and, per parameter, the  *)
(* sequences of reals the method keeps; its transitions are a step on the  *)
(* parameters that have a gradient, and the advance of time.               *)
(***************************************************************************)
EXTENDS RealArith

(* c is the configuration: a record of reals (and c.nesterov) *)
Zeros(n) == Force([j \in 1..n |-> R0])
Vec(n, f(_)) == Force([j \in 1..n |-> f(j)])
Methods == {"sgd", "adagrad", "rmsprop", "adam", "radam", "lamb"}

InitState(method, n) == [a |-> Zeros(n), b |-> Zeros(n)]

(* bias-corrected step size of Adam and Lamb *)
Alpha(c, t) == (c.lr \otimes RSqrt(R1 \ominus RPow(c.beta2, t))) \oslash (R1 \ominus RPow(c.beta1, t))

(* rectification of RAdam *)
RAlpha(c, t) ==
  LET b2t == RPow(c.beta2, t)
      rmax == (R(2) \oslash (R1 \ominus c.beta2)) \ominus R1
      ro == rmax \ominus (((R(2) \otimes t) \otimes b2t) \oslash (R1 \ominus b2t))
      rect == IF RLt(R(4), ro)
              THEN RSqrt((((ro \ominus R(4)) \otimes (ro \ominus R(2))) \otimes rmax)
                         \oslash (((rmax \ominus R(4)) \otimes (rmax \ominus R(2))) \otimes ro))
              ELSE R1
  IN  (c.lr \otimes (rect \otimes RSqrt(R1 \ominus b2t))) \oslash (R1 \ominus RPow(c.beta1, t))

(* exponential averages of the gradient and of its square *)
Mean(c, s, g) == Vec(Len(g), LAMBDA j : (c.beta1 \otimes s.a[j]) \oplus ((R1 \ominus c.beta1) \otimes g[j]))
Square(beta, old, g) == Vec(Len(g), LAMBDA j : (beta \otimes old[j]) \oplus ((R1 \ominus beta) \otimes (g[j] \otimes g[j])))
Ratio(a, b, eps) == Vec(Len(a), LAMBDA j : a[j] \oslash (RSqrt(b[j]) \oplus eps))
Scale(k, v) == Vec(Len(v), LAMBDA j : k \otimes v[j])
Plus(u, v) == Vec(Len(u), LAMBDA j : u[j] \oplus v[j])
Norm(v) == RSqrt(RDot(v, v))

(* <<new state, change>> for parameter value w with gradient g at time t *)
Update(method, c, t, s, w, g) ==
  LET n == Len(g) IN
  CASE method = "sgd" ->
         LET v == Plus(Scale(c.mu, s.a), Scale(c.lr, g)) IN
         IF REq(c.mu, R0) THEN <<s, Scale(c.lr, g)>>
         ELSE <<[s EXCEPT !.a = v],
                IF c.nesterov
                THEN Vec(n, LAMBDA j : ((R1 \oplus c.mu) \otimes v[j]) \ominus (c.mu \otimes s.a[j]))
                ELSE v>>
    [] method = "adagrad" ->
         LET m == Plus(s.a, Vec(n, LAMBDA j : g[j] \otimes g[j])) IN
         <<[s EXCEPT !.a = m], Scale(c.lr, Ratio(g, m, c.eps))>>
    [] method = "rmsprop" ->
         LET m == Square(c.decay, s.a, g) IN
         <<[s EXCEPT !.a = m], Scale(c.lr, Ratio(g, m, c.eps))>>
    [] method = "adam" ->
         LET a == Mean(c, s, g) b == Square(c.beta2, s.b, g)
         IN  <<[a |-> a, b |-> b],
               Scale(Alpha(c, t), Plus(Ratio(a, b, c.eps), Scale(c.lambda, w)))>>
    [] method = "radam" ->
         LET a == Mean(c, s, g) b == Square(c.beta2, s.b, g)
         IN  <<[a |-> a, b |-> b],
               Scale(RAlpha(c, t), Ratio(a, b, c.eps \otimes RSqrt(R1 \ominus RPow(c.beta2, t))))>>
    [] method = "lamb" ->
         LET a == Mean(c, s, g) b == Square(c.beta2, s.b, g)
             d == Plus(Ratio(a, b, c.eps), Scale(c.lambda, w))
             trust == IF REq(Norm(w), R0) \/ REq(Norm(d), R0) THEN R1 ELSE Norm(w) \oslash Norm(d)
         IN  <<[a |-> a, b |-> b], Scale(Alpha(c, t) \otimes trust, d)>>

(* one step: grads[p] is <<>> for parameters without gradient *)
StepState(method, c, t, S, W, grads) ==
  Force([p \in 1..Len(W) |-> IF grads[p] = <<>> THEN S[p] ELSE Update(method, c, t, S[p], W[p], grads[p])[1]])
StepValue(method, c, t, S, W, grads) ==
  Force([p \in 1..Len(W) |->
     IF grads[p] = <<>> THEN W[p]
     ELSE LET d == Update(method, c, t, S[p], W[p], grads[p])[2]
          IN Vec(Len(W[p]), LAMBDA j : W[p][j] \ominus d[j])])

(* learning rate schedules *)
Exponential(final, times, lr, t) ==
  IF t > 1 /\ RLt(final, lr)
  THEN RExp(((R(times - t) \otimes RLog(lr)) \oplus RLog(final)) \oslash R((times - t) + 1))
  ELSE lr
Hyperbolic(init, final, rate, lr, t) ==
  IF t > 1 /\ RLt(R0, rate) /\ RLt(final, lr) THEN init \oslash (R1 \oplus (rate \otimes R(t))) ELSE lr

(* gradient clipping (property C12): grads[p] is <<>> for parameters without gradient *)
ClipValue(v, grads) ==
  Force([p \in 1..Len(grads) |->
    IF grads[p] = <<>> THEN <<>>
    ELSE Vec(Len(grads[p]), LAMBDA j : RMax(RMin(grads[p][j], v), RNeg(v)))])
AllOf(grads) ==
  LET RECURSIVE cat(_)
      cat(p) == IF p > Len(grads) THEN <<>> ELSE Force(grads[p]) \o cat(p + 1)
  IN  cat(1)
PNorm(v, ptype, isInf) ==
  LET a == Vec(Len(v), LAMBDA j : RAbs(v[j]))
      RECURSIVE mx(_)
      mx(j) == IF j > Len(a) THEN R0 ELSE RMax(a[j], mx(j + 1))
  IN  IF isInf THEN mx(1)
      ELSE LET big == mx(1) IN
           IF REq(big, R0) THEN R0
           ELSE big \otimes RPow(RSum(Vec(Len(a), LAMBDA j : RPow(a[j] \oslash big, ptype))), R1 \oslash ptype)
=============================================================================
