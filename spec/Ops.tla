-------------------------------- MODULE Ops --------------------------------
(***************************************************************************)
(* The mathematical definition of every public operator of the autograd    *)
(* package: OpFwd(op, p, xs) is the value of operator op with the (not     *)
(* differentiable) settings p on the operands xs (matrices of Tensor.tla). *)
(* Scalar hyper-parameters given as tensors are operands like any other.   *)
(***************************************************************************)
EXTENDS Tensor, FiniteSets

Half == RLit("0.5")

Gelu(x) ==
  Half \otimes x \otimes
    (R1 \oplus RTanh(RSqrt(RLit("2") \oslash RLit("3.141592653589793"))
                     \otimes (x \oplus (RLit("0.044715") \otimes x \otimes x \otimes x))))

UnaryFn(op, x) ==
  CASE op = "Abs" -> RAbs(x)
    [] op = "Cos" -> RCos(x)
    [] op = "Exp" -> RExp(x)
    [] op = "GELU" -> Gelu(x)
    [] op = "HardSigmoid" ->
         RMax(R0, RMin(R1, (RLit("0.2") \otimes x) \oplus Half))
    [] op = "HardTanh" -> RMax(R(-1), RMin(R1, x))
    [] op = "Copy" -> x
    [] op = "Log" -> RLog(x)
    [] op = "Mish" -> x \otimes RTanh(SoftPl(x))
    [] op = "Neg" -> RNeg(x)
    [] op = "Reciprocal" -> R1 \oslash x
    [] op = "ReLU" -> RMax(R0, x)
    [] op = "Sigmoid" -> SigmSafe(x)
    [] op \in {"SiLU", "Swish"} -> x \otimes SigmSafe(x)
    [] op = "Sin" -> RSin(x)
    [] op = "Softsign" -> x \oslash (R1 \oplus RAbs(x))
    [] op = "Sqrt" -> RSqrt(x)
    [] op = "Square" -> x \otimes x
    [] op = "Tan" -> RSin(x) \oslash RCos(x)
    [] op = "Tanh" -> RTanh(x)
    [] op = "ReverseSubOne" -> R1 \ominus x
    [] op = "PositiveELU" -> R1 \oplus (IF RLe(x, R0) THEN RExp(x) \ominus R1 ELSE x)

UnaryOps == {"Abs", "Cos", "Exp", "GELU", "HardSigmoid", "HardTanh", "Copy", "Log", "Mish",
  "Neg", "Reciprocal", "ReLU", "Sigmoid", "SiLU", "Swish", "Sin", "Softsign", "Sqrt", "Square",
  "Tan", "Tanh", "ReverseSubOne", "PositiveELU"}

(* element-wise functions with scalar tensors as further operands *)
ParamFn(op, x, a) ==
  CASE op = "CELU" -> IF RLe(x, R0) THEN a[1] \otimes (RExp(x \oslash a[1]) \ominus R1) ELSE x
    [] op = "ELU" -> IF RLe(x, R0) THEN a[1] \otimes (RExp(x) \ominus R1) ELSE x
    [] op = "LeakyReLU" -> IF RLe(x, R0) THEN a[1] \otimes x ELSE x
    [] op = "SELU" -> a[2] \otimes (IF RLe(x, R0) THEN a[1] \otimes (RExp(x) \ominus R1) ELSE x)
    [] op = "SoftPlus" -> IF RLt(a[2], x) THEN x ELSE SoftPl(a[1] \otimes x) \oslash a[1]
    [] op = "SoftShrink" -> IF RLt(x, RNeg(a[1])) THEN x \oplus a[1]
                            ELSE IF RLt(a[1], x) THEN x \ominus a[1] ELSE R0
    [] op = "Threshold" -> IF RLe(x, a[1]) THEN a[2] ELSE x
    [] op = "SwishB" -> x \otimes SigmSafe(a[1] \otimes x)
    [] op = "AddScalar" -> x \oplus a[1]
    [] op = "SubScalar" -> x \ominus a[1]
    [] op = "ReverseSub" -> a[1] \ominus x
    [] op = "ProdScalar" -> x \otimes a[1]
    [] op = "DivScalar" -> x \oslash a[1]

ParamOps == {"CELU", "ELU", "LeakyReLU", "SELU", "SoftPlus", "SoftShrink", "Threshold", "SwishB",
  "AddScalar", "SubScalar", "ReverseSub", "ProdScalar", "DivScalar"}

BinaryFn(op, x, y) ==
  CASE op = "Add" -> x \oplus y
    [] op = "Sub" -> x \ominus y
    [] op = "Prod" -> x \otimes y
    [] op = "Div" -> x \oslash y
    [] op = "Max" -> RMax(x, y)
    [] op = "Min" -> RMin(x, y)

BinaryOps == {"Add", "Sub", "Prod", "Div", "Max", "Min"}

(* sparsemax: the Euclidean projection onto the simplex (Martins & Astudillo 2016) *)
SparseSupport(z) ==
  {i \in 1..Len(z) :
     RLt(R0, R1 \oplus RSum(Force([j \in 1..Len(z) |->
                       IF RLe(z[i], z[j]) THEN RVal(z[i]) \ominus RVal(z[j]) ELSE R0])))}
SparseTau(z) ==
  LET S == SparseSupport(z)
      s == RSum(Force([j \in 1..Len(z) |-> IF j \in S THEN z[j] ELSE R0]))
      n == Cardinality(S)
  IN  (s \ominus R1) \oslash R(n)
SparseMaxSeq(z) ==
  LET S == SparseSupport(z)
      tau == SparseTau(z)
  IN  Force([j \in 1..Len(z) |-> IF j \in S THEN z[j] \ominus tau ELSE R0])
SparseLossSeq(z) ==
  LET S == SparseSupport(z)
      tau == SparseTau(z)
      reg == Half \oplus (Half \otimes RSum(Force([j \in 1..Len(z) |->
                 IF j \in S THEN (z[j] \otimes z[j]) \ominus (tau \otimes tau) ELSE R0])))
  IN  Force([j \in 1..Len(z) |-> z[j] \ominus reg])

AffineOf(xs) ==  \* b, w1, x1, w2, x2 ...
  LET n == (Len(xs) - 1) \div 2
  IN  FoldLeft(LAMBDA acc, k : TAdd(acc, TMul(xs[2 * k], xs[2 * k + 1])), xs[1], [k \in 1..n |-> k])

PoolOf(x, pr, pc) ==
  Mk(Rows(x) \div pr, Cols(x) \div pc,
     LAMBDA i, j : TMaxEl(TSlice(x, (i - 1) * pr, (j - 1) * pc, i * pr, j * pc)))

FlattenShape(x) == IF Rows(x) = 1 THEN <<1, Size(x)>> ELSE <<1, Size(x)>>

OpFwd(op, p, xs) ==
  CASE op \in UnaryOps -> Map1(LAMBDA e : UnaryFn(op, e), xs[1])
    [] op \in ParamOps ->
         LET a == Force([k \in 1..(Len(xs) - 1) |-> xs[k + 1].v[1]])
         IN  Map1(LAMBDA e : ParamFn(op, e, a), xs[1])
    [] op \in BinaryOps -> Zip(LAMBDA a, b : BinaryFn(op, a, b), xs[1], xs[2])
    [] op = "Pow" -> Map1(LAMBDA e : RPow(e, p.power), xs[1])
    [] op = "AppendRows" ->
         [sh |-> <<Rows(xs[1]) + Len(xs) - 1, Cols(xs[1])>>,
          v |-> FoldLeft(LAMBDA acc, m : acc \o m.v, <<>>, xs)]
    [] op = "At" -> Scal(El(xs[1], p.i + 1, p.j + 1))
    [] op = "AtVec" -> Scal(xs[1].v[p.i + 1])
    [] op = "ColView" -> Col(ColOf(xs[1], p.i + 1))
    [] op = "RowView" -> RowV(RowOf(xs[1], p.i + 1))
    [] op = "Concat" -> TConcat(xs)
    [] op = "Pad" -> LET n == Len(xs) - 1 IN
         TConcat([k \in 1..p.k |-> IF k <= n THEN xs[k] ELSE Map1(LAMBDA x : x \oplus R(k - 1), xs[n + 1])])
    [] op = "MapNeg" -> TConcat([k \in 1..Len(xs) |-> Map1(RNeg, xs[k])])
    [] op = "Map2Sub" -> LET n == Len(xs) \div 2 IN TConcat([k \in 1..n |-> Zip(LAMBDA x, y : x \ominus y, xs[k], xs[n + k])])
    [] op = "Dot" -> Scal(RDot(xs[1].v, xs[2].v))
    [] op = "Flatten" -> [sh |-> <<1, Size(xs[1])>>, v |-> xs[1].v]
    [] op = "Reshape" -> TReshape(xs[1], p.r, p.c)
    [] op = "Slice" -> TSlice(xs[1], p.fr, p.fc, p.tr, p.tc)
    [] op = "SplitVec" ->   \* the i-th of n equal pieces
         LET w == Size(xs[1]) \div p.n
         IN  TSlice(xs[1], p.i * w, 0, (p.i + 1) * w, 1)
    [] op = "Stack" -> TStack(xs)
    [] op = "T" -> TT(xs[1])
    [] op = "RotateR" ->
         LET n == Size(xs[1])
         IN  [sh |-> xs[1].sh,
              v |-> Force([k \in 1..n |-> xs[1].v[((k - 1 - p.i + n) % n) + 1]])]
    [] op = "MaxPooling" -> PoolOf(xs[1], p.r, p.c)
    [] op = "ReduceMax" -> Scal(TMaxEl(xs[1]))
    [] op = "ReduceMean" -> Scal(TMean(xs[1]))
    [] op = "ReduceSum" -> Scal(TSum(xs[1]))
    [] op = "ScalarMax" -> Scal(FoldLeft(RMax, xs[1].v[1], [k \in 1..Len(xs) |-> xs[k].v[1]]))
    [] op = "Mul" -> TMul(xs[1], xs[2])
    [] op = "MulT" -> TMul(TT(xs[1]), xs[2])
    [] op = "Affine" -> AffineOf(xs)
    [] op = "Softmax" -> Col(SoftmaxSeq(xs[1].v))   \* always a column vector
    [] op = "LogSoftmax" ->
         LET l == LogSumExpSeq(xs[1].v) IN Map1(LAMBDA e : e \ominus l, Col(xs[1].v))
    [] op = "LogSumExp" ->
         IF Len(xs) = 1 THEN Scal(LogSumExpSeq(xs[1].v))
         ELSE Scal(LogSumExpSeq([k \in 1..Len(xs) |-> xs[k].v[1]]))
    [] op = "SparseMax" -> [sh |-> xs[1].sh, v |-> SparseMaxSeq(xs[1].v)]
    [] op = "SparseMaxLoss" -> [sh |-> xs[1].sh, v |-> SparseLossSeq(xs[1].v)]
    [] op = "Sum" -> TSumAll(xs)
    [] op = "Mean" -> TScale(TSumAll(xs), R1 \oslash R(Len(xs)))
    [] op = "Maximum" -> FoldLeft(TMax, xs[1], Tail(xs))
    [] op = "Minimum" -> FoldLeft(TMin, xs[1], Tail(xs))
    [] op = "BiLinear" -> TMul(TMul(TT(xs[2]), xs[1]), xs[3])   \* w, x1, x2
    [] op = "BiAffine" ->                                       \* w, u, v, b, x1, x2
         TAdd(TAdd(TAdd(TMul(TMul(TT(xs[5]), xs[1]), xs[6]), TMul(TT(xs[2]), xs[5])),
                   TMul(TT(xs[3]), xs[6])), xs[4])

(* vector-Jacobian product: the gradient of the k-th operand for output gradient gy *)
VjpAt(op, p, xs, gy, k, e) ==
  DotDer(gy.v, OpFwd(op, p, Force([m \in 1..Len(xs) |-> IF m = k THEN Perturb(xs[m], e) ELSE xs[m]])))
Vjp(op, p, xs, gy, k) ==
  [sh |-> xs[k].sh, v |-> Force([e \in 1..Size(xs[k]) |-> VjpAt(op, p, xs, gy, k, e)])]
=============================================================================
