------------------------------ MODULE Tensor ------------------------------
(***************************************************************************)
(* Matrices of reals: [sh |-> <<rows, cols>>, v |-> row-major sequence].   *)
(* All indices in this module start at 1.                                  *)
(***************************************************************************)
EXTENDS RealArith

LOCAL SX == INSTANCE SequencesExt
FoldLeft(Op(_, _), base, seq) == SX!FoldLeft(Op, base, seq)

Rows(m) == m.sh[1]
Cols(m) == m.sh[2]
Size(m) == m.sh[1] * m.sh[2]
El(m, i, j) == m.v[(i - 1) * m.sh[2] + j]
IsVec(m) == Rows(m) = 1 \/ Cols(m) = 1
IsScal(m) == Rows(m) = 1 /\ Cols(m) = 1
WellFormed(m) == Len(m.v) = Size(m) /\ Rows(m) >= 0 /\ Cols(m) >= 0

Tab(n, F(_)) == Force([k \in 1..n |-> F(k)])
Mk(r, c, F(_, _)) ==
  [sh |-> <<r, c>>,
   v |-> Force([k \in 1..(r * c) |-> F(((k - 1) \div c) + 1, ((k - 1) % c) + 1)])]
Col(xs) == [sh |-> <<Len(xs), 1>>, v |-> xs]
RowV(xs) == [sh |-> <<1, Len(xs)>>, v |-> xs]
Scal(x) == [sh |-> <<1, 1>>, v |-> <<x>>]
Fill(r, c, x) == Mk(r, c, LAMBDA i, j : x)
Zeros(r, c) == Fill(r, c, R0)
Ident(n) == Mk(n, n, LAMBDA i, j : IF i = j THEN R1 ELSE R0)
Item(m) == m.v[1]

Map1(F(_), m) == [sh |-> m.sh, v |-> Force([k \in 1..Size(m) |-> F(m.v[k])])]
Zip(F(_, _), a, b) == [sh |-> a.sh, v |-> Force([k \in 1..Size(a) |-> F(a.v[k], b.v[k])])]

RowOf(m, i) == Force([j \in 1..Cols(m) |-> El(m, i, j)])
ColOf(m, j) == Force([i \in 1..Rows(m) |-> El(m, i, j)])

TAdd(a, b) == Zip(RAdd, a, b)
TSub(a, b) == Zip(RSub, a, b)
TProd(a, b) == Zip(RMul, a, b)
TDiv(a, b) == Zip(RDiv, a, b)
TMax(a, b) == Zip(RMax, a, b)
TMin(a, b) == Zip(RMin, a, b)
TScale(a, s) == Map1(LAMBDA x : x \otimes s, a)
TShift(a, s) == Map1(LAMBDA x : x \oplus s, a)
TNeg(a) == Map1(RNeg, a)
TT(a) == Mk(Cols(a), Rows(a), LAMBDA i, j : El(a, j, i))
TMul(a, b) ==
  LET rs == Force([i \in 1..Rows(a) |-> RowOf(a, i)])
      cs == Force([j \in 1..Cols(b) |-> ColOf(b, j)])
  IN  Mk(Rows(a), Cols(b), LAMBDA i, j : RDot(rs[i], cs[j]))
TReshape(a, r, c) == [sh |-> <<r, c>>, v |-> a.v]
TSum(a) == RSum(a.v)
TMaxEl(a) == FoldLeft(RMax, a.v[1], a.v)
TMinEl(a) == FoldLeft(RMin, a.v[1], a.v)
TMean(a) == TSum(a) \oslash R(Size(a))
TConcat(ms) == Col(FoldLeft(LAMBDA acc, m : acc \o m.v, <<>>, ms))
TSlice(m, fr, fc, tr, tc) == Mk(tr - fr, tc - fc, LAMBDA i, j : El(m, fr + i, fc + j))
TStack(ms) == [sh |-> <<Len(ms), Size(ms[1])>>, v |-> FoldLeft(LAMBDA acc, m : acc \o m.v, <<>>, ms)]
TSumAll(ms) == FoldLeft(TAdd, ms[1], Tail(ms))

Sigm(x) == R1 \oslash (R1 \oplus RExp(RNeg(x)))
SigmSafe(x) == IF RLt(x, R0) THEN LET e == RExp(x) IN e \oslash (R1 \oplus e) ELSE Sigm(x)
SoftPl(x) == IF RLt(R0, x) THEN x \oplus RLog(R1 \oplus RExp(RNeg(x))) ELSE RLog(R1 \oplus RExp(x))
SoftmaxSeq(xs) ==
  LET mx == RVal(FoldLeft(RMax, xs[1], xs))
      es == Force([k \in 1..Len(xs) |-> RExp(xs[k] \ominus mx)])
      s  == RSum(es)
  IN  Force([k \in 1..Len(xs) |-> es[k] \oslash s])
LogSumExpSeq(xs) ==
  LET mx == RVal(FoldLeft(RMax, xs[1], xs))
  IN  mx \oplus RLog(RSum(Force([k \in 1..Len(xs) |-> RExp(xs[k] \ominus mx)])))

(* agreement with an observed matrix, up to rounding *)
SeqClose(xs, ys, tol) ==
  Len(xs) = Len(ys) /\ \A k \in 1..Len(xs) : RClose(xs[k], ys[k], tol)
Agrees(m, obs, tol) == m.sh = obs.sh /\ SeqClose(m.v, obs.v, tol)
Val(m) == [sh |-> m.sh, v |-> Force([k \in 1..Len(m.v) |-> RVal(m.v[k])])]

(* the matrix m with derivative 1 in its k-th element *)
Perturb(m, k) ==
  [sh |-> m.sh, v |-> Force([j \in 1..Len(m.v) |-> IF j = k THEN RDual(m.v[j], R1) ELSE m.v[j]])]
(* the matrix m with derivative du (a sequence) *)
PerturbBy(m, du) == [sh |-> m.sh, v |-> Force([k \in 1..Len(m.v) |-> RDual(m.v[k], du[k])])]
(* sum of gy[k] * derivative of y[k] *)
DotDer(gy, y) == RSum(Force([k \in 1..Len(gy) |-> gy[k] \otimes RDer(y.v[k])]))
=============================================================================
