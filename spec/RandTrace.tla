------------------------------ MODULE RandTrace ------------------------------
(***************************************************************************)
(* Recorded uses of random generators, initializers and dropout (property  *)
(* C28).  A line is of one of the modes                                    *)
(*  seq      the same calls on generators with seeds a = b # c             *)
(*  bulk     a generator shared by goroutines (LockedRand!Exactly)         *)
(*  stat     many values of one call                                       *)
(*  unique   distinct numbers                                              *)
(*  init     a matrix or model initialized with seeds p = q # o            *)
(*  dropout  dropout with seeds a = b # c                                  *)
(* (mode hist is for RandHist).  Statistics are admitted within 7 standard *)
(* deviations.                                                             *)
(***************************************************************************)
EXTENDS RealArith, FiniteSets, TLC, IOUtils

Trace == LoadTrace(IOEnv.TRACE)
VARIABLE i
L == INSTANCE LockedRand WITH Procs <- {}, Calls <- 0, MaxDraw <- 0, low <- 0, high <- 0, lock <- 0,
       pc <- <<>>, tmp <- <<>>, left <- <<>>, cur <- <<>>, got <- <<>>, calls <- <<>>

Rng(s) == {s[j] : j \in DOMAIN s}
First(p, q) == IF p # <<>> THEN p ELSE q
FirstOf(s) == LET RECURSIVE G(_) G(j) == IF j > Len(s) THEN <<>> ELSE IF s[j] # <<>> THEN s[j] ELSE G(j + 1) IN G(1)

------------------------------------------------------------------------------
(* numbers written with the digits of base 2^22 *)
Lt(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ a[2] < b[2]
            \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
P63 == <<524288, 0, 0>>      \* 2^63
P32 == <<0, 1024, 0>>
P31 == <<0, 512, 0>>
IsPerm(s, n) == Len(s) = n /\ Rng(s) = 0..(n - 1)
InUnit(x) == RLe(R0, x) /\ RLt(x, R1)

CallOK(q) ==
  IF q.bad THEN q.raw = "panic"
  ELSE /\ q.raw # "panic"
       /\ CASE q.op \in {"Int63", "Int"} -> Lt(q.w[1], P63)
            [] q.op = "TwoInt63" -> Lt(q.w[1], P63) /\ Lt(q.w[2], P63)
            [] q.op = "Uint64" -> TRUE
            [] q.op = "Uint32" -> Lt(q.w[1], P32)
            [] q.op = "Int31" -> Lt(q.w[1], P31)
            [] q.op \in {"Uint64n", "Int63n", "Int31n", "Intn"} -> Lt(q.w[1], q.n)
            [] q.op \in {"Float32", "Float64"} -> InUnit(q.x[1])
            [] q.op = "NormFloat64" -> RIsFinite(q.x[1])
            [] q.op \in {"Perm", "Shuffle", "ShuffleInPlace"} -> IsPerm(q.k, q.len) /\ q.raw # "another slice"
            [] q.op = "Read" -> Len(q.k) = q.len /\ \A j \in 1..q.len : q.k[j] \in 0..255

SeqProblems(e) ==
  LET bad == {j \in 1..Len(e.a) : ~CallOK(e.a[j])}
      raws(s) == [j \in 1..Len(s) |-> s[j].raw]
  IN  IF bad # {} THEN <<"out of range", e.a[CHOOSE j \in bad : TRUE].op>>
      ELSE IF raws(e.a) # raws(e.b) THEN <<"the same seed gave different values">>
      ELSE IF raws(e.a) = raws(e.c) THEN <<"different seeds gave the same values">>
      ELSE <<>>

BulkProblems(e) ==
  IF ~L!Exactly([p \in 1..Len(e.hist) |-> e.hist[p]], e.n) THEN <<"not the sequence of the seed, each value to one caller">> ELSE <<>>

------------------------------------------------------------------------------
(* statistics *)
Within(x, mean, var) == LET d == x \ominus mean IN RLe(d \otimes d, R(49) \otimes var)
Mean(s) == RSum(s) \oslash R(Len(s))
Var(s, m) == Mean(Force([j \in 1..Len(s) |-> (s[j] \ominus m) \otimes (s[j] \ominus m)]))
Fourth(s, m) == Mean(Force([j \in 1..Len(s) |-> LET d == (s[j] \ominus m) \otimes (s[j] \ominus m) IN d \otimes d]))
(* a count of n trials with probability p: exactly 0 or n for p = 0 or 1 *)
CountOK(k, n, p) == Within(R(k), R(n) \otimes p, R(n) \otimes p \otimes (R1 \ominus p))
UniformOK(s, lo, hi) ==
  LET n == R(Len(s)) w == hi \ominus lo m == Mean(s) mid == lo \oplus (w \oslash R(2)) IN
  /\ Within(m, mid, (w \otimes w) \oslash (R(12) \otimes n))
  /\ Within(Var(s, mid), (w \otimes w) \oslash R(12), (w \otimes w \otimes w \otimes w) \oslash (R(180) \otimes n))
NormalOK(s, mean, std) ==
  LET n == R(Len(s)) v == std \otimes std m == Mean(s) IN
  /\ Within(m, mean, v \oslash n)
  /\ Within(Var(s, mean), v, (R(2) \otimes v \otimes v) \oslash n)
  /\ Within(Fourth(s, mean), R(3) \otimes v \otimes v, (R(96) \otimes v \otimes v \otimes v \otimes v) \oslash n)

(* probabilities of 0..1/2, 1/2..1, ..., 7/2..4 standard deviations, and more, to one side *)
NormBins == <<RLit("0.191462461274"), RLit("0.149882284795"), RLit("0.0918480526626"), RLit("0.0440570693207"), RLit("0.0165404666224"),
              RLit("0.00485976729415"), RLit("0.00111726895259"), RLit("0.000200957837202"), RLit("3.16712418331e-05")>>
StatProblems(e) ==
  IF CASE e.kind = "bits" -> \A j \in 1..Len(e.counts) : CountOK(e.counts[j], e.n, RLit("0.5"))
       [] e.kind = "table" -> /\ Len(e.counts) = Len(e.p)
                              /\ \A j \in 1..Len(e.p) : CountOK(e.counts[j], e.n, e.p[j])
       [] e.kind = "normbins" -> /\ Len(e.counts) = 2 * Len(NormBins)
                                 /\ \A j \in 1..Len(e.counts) : CountOK(e.counts[j], e.n, NormBins[IF j > Len(NormBins) THEN j - Len(NormBins) ELSE j])
       [] e.kind = "real" -> /\ \A j \in 1..Len(e.x) : RLe(e.min, e.x[j]) /\ RLt(e.x[j], e.max)
                             /\ UniformOK(e.x, e.min, e.max)
       [] e.kind = "norm" -> NormalOK(e.x, e.min, e.max)
  THEN <<>> ELSE <<"distribution">>

UniqueProblems(e) ==
  IF /\ Len(e.out) = e.n /\ Cardinality(Rng(e.out)) = e.n
     /\ Rng(e.out) \subseteq 0..(e.max - 1) \ Rng(e.bad)
  THEN <<>> ELSE <<"not distinct valid numbers">>

------------------------------------------------------------------------------
(* initializers *)
Gain(act) == CASE act = "ReLU" -> RSqrt(R(2)) [] act = "Tanh" -> R(5) \oslash R(3) [] OTHER -> R1
XavierBound(gain, sh) == gain \otimes RSqrt(R(6) \oslash R(sh[1] + sh[2]))
XavierStd(gain, sh) == gain \otimes RSqrt(R(2) \oslash R(sh[1] + sh[2]))
Tol(dt) == IF dt = "f32" THEN RLit("1e-6") ELSE RLit("1e-12")
All(s, v) == \A j \in 1..Len(s) : s[j] = v
Bounded(s, lo, hi, dt) ==
  LET t == Tol(dt) \otimes (R1 \oplus RAbs(lo) \oplus RAbs(hi)) IN
  \A j \in 1..Len(s) : RLe(lo \ominus t, s[j]) /\ RLe(s[j], hi \oplus t)
Spread(s, lo, hi, dt) == Bounded(s, lo, hi, dt) /\ (Len(s) >= 60 => UniformOK(s, lo, hi))
Value0(p, dt) == RClose(p, R0, R0)

ParamOK(e, m) ==
  LET s == m.v sh == m.sh g == Gain(e.act) dt == e.dt IN
  /\ m.same /\ m.dt = dt /\ Len(s) = sh[1] * sh[2]
  /\ CASE m.name = "one" -> All(s, R1)
       [] m.name = "zero" -> All(s, R0)
       [] e.kind = "sgu" -> Spread(s, RNeg(e.a), e.a, dt)
       [] e.kind \in {"lstm", "self", "multi"} -> LET b == XavierBound(R1, sh) IN Spread(s, RNeg(b), b, dt)
       [] e.kind = "Uniform" -> Spread(s, e.a, e.b, dt)
       [] e.kind = "Normal" -> (\A j \in 1..Len(s) : RLe(RAbs(s[j] \ominus e.a), R(9) \otimes e.b)) /\ (Len(s) >= 60 => NormalOK(s, e.a, e.b))
       [] e.kind \in {"Constant", "Ones", "Zeros"} -> \A j \in 1..Len(s) : RClose(s[j], e.a, Tol(dt))
       [] e.kind = "XavierUniform" -> LET b == XavierBound(g, sh) IN Spread(s, RNeg(b), b, dt)
       [] e.kind = "XavierNormal" -> LET d == XavierStd(g, sh) IN (\A j \in 1..Len(s) : RLe(RAbs(s[j]), R(9) \otimes d)) /\ (Len(s) >= 60 => NormalOK(s, R0, d))
       [] e.kind = "Achlioptas" ->
            LET r3 == RSqrt(R(3)) pos == {j \in 1..Len(s) : RClose(s[j], r3, Tol(dt))} neg == {j \in 1..Len(s) : RClose(s[j], RNeg(r3), Tol(dt))} nil == {j \in 1..Len(s) : REq(s[j], R0)}
            IN  /\ pos \cup neg \cup nil = 1..Len(s)
                /\ CountOK(Cardinality(pos), Len(s), R1 \oslash R(6)) /\ CountOK(Cardinality(neg), Len(s), R1 \oslash R(6))
       [] e.kind = "Bernoulli" ->
            LET nil == {j \in 1..Len(s) : REq(s[j], R0)} one == {j \in 1..Len(s) : REq(s[j], R1)}
            IN  nil \cup one = 1..Len(s) /\ CountOK(Cardinality(nil), Len(s), e.a)

Entropy(e) ==  \* how many elements are drawn from a continuous distribution
  IF e.kind \in {"Constant", "Ones", "Zeros", "Achlioptas", "Bernoulli"} THEN 0
  ELSE Cardinality(UNION {{<<j, l>> : l \in 1..Len(e.p[j].v)} : j \in {j \in 1..Len(e.p) : e.p[j].name \notin {"one", "zero"}}})
Values(s) == [j \in 1..Len(s) |-> s[j].v]
Drawn(e) == {j \in 1..Len(e.p) : e.p[j].name \notin {"one", "zero"}}

InitProblems(e) ==
  IF ~RClose(e.gain, Gain(e.act), RLit("1e-12")) THEN <<"gain">>
  ELSE IF \E j \in 1..Len(e.p) : ~ParamOK(e, e.p[j]) THEN <<"values">>
  ELSE IF Values(e.p) # Values(e.q) THEN <<"the same seed gave different values">>
  ELSE IF Entropy(e) >= 3 /\ Values(e.p) = Values(e.o) THEN <<"different seeds gave the same values">>
  ELSE IF \E j, l \in Drawn(e) : j # l /\ Len(e.p[j].v) >= 3 /\ e.p[j].v = e.p[l].v THEN <<"two parameters got the same values">>
  ELSE <<>>

------------------------------------------------------------------------------
(* dropout *)
Keep(e) == R1 \oslash (R1 \ominus e.p)
Sc(e, v) == v \otimes Keep(e)
Cl(e, a, b) == RClose(a, b, Tol(e.dt))
Dropped(e, m, j) == REq(m.y[j], R0) /\ (m.has => REq(m.gx[j], R0))
Kept(e, m, j) == Cl(e, m.y[j], Sc(e, m.x[j])) /\ (m.has => Cl(e, m.gx[j], Sc(e, m.gy[j])))
One(e) == e.p = R1
ItemOK(e, m) ==
  /\ m.dt = e.dt /\ m.has = m.rg /\ m.sh[1] * m.sh[2] = Len(m.y) /\ Len(m.y) = Len(m.x) /\ (m.has => Len(m.gx) = Len(m.x))
  /\ \A j \in 1..Len(m.x) : m.now[j] = m.x[j]
  /\ \A j \in 1..Len(m.x) :
       IF e.p = R0 THEN m.y[j] = m.x[j] /\ (m.has => m.gx[j] = m.gy[j])
       ELSE IF One(e) THEN Dropped(e, m, j)
       ELSE Dropped(e, m, j) \/ Kept(e, m, j)
Seen(m) == {j \in 1..Len(m.x) : ~REq(m.x[j], R0) \/ m.has}   \* gradients are never zero
Drops(m) == {j \in Seen(m) : REq(m.y[j], R0) /\ (m.has => REq(m.gx[j], R0))}
Mask(m) == [j \in Seen(m) |-> j \in Drops(m)]
RECURSIVE Total(_, _)
Total(f, n) == IF n = 0 THEN 0 ELSE f[n] + Total(f, n - 1)
Mixed(e) == RLe(RLit("0.2"), e.p) /\ RLe(e.p, RLit("0.8"))
Outputs(s) == [j \in 1..Len(s) |-> <<s[j].y, s[j].gx>>]
DropoutProblems(e) ==
  LET K == Len(e.a)
      n == Total([j \in 1..K |-> Cardinality(Seen(e.a[j]))], K)
      d == Total([j \in 1..K |-> Cardinality(Drops(e.a[j]))], K)
  IN  IF \E j \in 1..K : ~ItemOK(e, e.a[j]) THEN <<"neither dropped nor scaled">>
      ELSE IF ~CountOK(d, n, e.p) THEN <<"fraction of dropped elements">>
      ELSE IF Outputs(e.a) # Outputs(e.b) THEN <<"the same seed gave different results">>
      ELSE IF Mixed(e) /\ n >= 200 /\ Outputs(e.a) = Outputs(e.c) THEN <<"different seeds gave the same results">>
      ELSE IF Mixed(e) /\ \E j, l \in 1..K : j # l /\ Cardinality(Seen(e.a[j])) >= 200 /\ Mask(e.a[j]) = Mask(e.a[l]) THEN <<"the same elements dropped twice">>
      ELSE <<>>

------------------------------------------------------------------------------
Problems(e) ==
  IF e.outcome # "ok" THEN <<"outcome " \o e.outcome>>
  ELSE CASE e.mode = "seq" -> SeqProblems(e)
         [] e.mode = "bulk" -> BulkProblems(e)
         [] e.mode = "stat" -> StatProblems(e)
         [] e.mode = "unique" -> UniqueProblems(e)
         [] e.mode = "init" -> InitProblems(e)
         [] e.mode = "dropout" -> DropoutProblems(e)
Init == i = 1
Next ==
  /\ i <= Len(Trace)
  /\ LET p == Problems(Trace[i]) IN IF p = <<>> THEN TRUE ELSE PrintT(<<"MISMATCH", i, Trace[i].key, p>>)
  /\ i' = i + 1
Spec == Init /\ [][Next]_i
Counted == TLCSet(1, i - 1)
Done == PrintT(<<"CONSUMED", TLCGet(1), Len(Trace)>>)
===============================================================================
