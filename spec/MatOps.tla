------------------------------- MODULE MatOps -------------------------------
(***************************************************************************)
(* Matrices as values: the operations of mat.Matrix on a pool of matrices. *)
(* A matrix is [dt, sh, v, rg, g]: element type, shape, row-major values,  *)
(* gradient requirement, and gradient (<<>> or <<[sh, v]>>).               *)
(*                                                                         *)
(* An operation c names the operands by their places in the pool (c.xs,    *)
(* receiver first) and carries integers c.is, reals c.ns and the element   *)
(* type c.dt of its result.  It either                                     *)
(*   - is refused (~Pre): nothing happens, or                              *)
(*   - makes new matrices Out(P, c) and changes none, or                   *)
(*   - changes its receiver, and only that, to Upd(P, c), or               *)
(*   - computes the numbers Nums(P, c) and changes nothing.                *)
(* (Properties C26 and C27.)                                               *)
(***************************************************************************)
EXTENDS Tensor

M0(dt, m) == [dt |-> dt, sh |-> m.sh, v |-> m.v, rg |-> FALSE, g |-> <<>>]

(* conversion to an element type *)
Cv(dt, x) == IF dt = "f32" THEN RFloat32(x) ELSE x
As(dt, m) == IF dt = "f32" /\ m.dt # "f32" THEN [sh |-> m.sh, v |-> Force([k \in 1..Len(m.v) |-> RFloat32(m.v[k])])]
             ELSE [sh |-> m.sh, v |-> m.v]
IsInt(x) == RIsFinite(x) /\ RLe(RAbs(x), R(64)) /\ REq(R(RFloor(x)), x)

Zip2 == {"Add", "Sub", "Prod", "Div", "Maximum", "Minimum"}
Zip2In == {"AddInPlace", "SubInPlace", "ProdInPlace", "DivInPlace"}
ScalOps == {"AddScalar", "SubScalar", "ProdScalar"}
ScalIn == {"AddScalarInPlace", "SubScalarInPlace", "ProdScalarInPlace"}
Map1Ops == {"Abs", "Pow", "Sqrt", "Log", "Exp", "Sigmoid"}
VecOnly == {"ArgMax", "Softmax", "CumSum", "Range", "SplitV", "Norm", "Normalize2", "DoVecNonZero", "ResizeVector"}
InPlace == Zip2In \cup ScalIn \cup
  {"SetData", "Zeros", "SetScalar", "SetAt", "ReshapeInPlace", "FlattenInPlace", "TransposeInPlace", "ProdMatrixScalarInPlace",
   "ClipInPlace", "SwapInPlace", "ApplyInPlace", "ApplyWithAlphaInPlace", "Copy", "AccGrad", "ZeroGrad", "SetRequiresGrad", "DataWrite"}
Numeric == {"Item", "ScalarAt", "ArgMax", "DoNonZero", "DoVecNonZero", "Equal", "InDelta", "SameDims", "IsVector", "IsScalar", "Size", "MathFn"}

Sum(is) == FoldLeft(LAMBDA a, b : a + b, 0, is)
IdxOK(m, is) ==
  \/ Len(is) = 1 /\ IsVec(m) /\ is[1] >= 0 /\ is[1] < Size(m)
  \/ Len(is) = 2 /\ is[1] >= 0 /\ is[1] < Rows(m) /\ is[2] >= 0 /\ is[2] < Cols(m)
Off(m, is) == IF Len(is) = 1 THEN is[1] + 1 ELSE is[1] * Cols(m) + is[2] + 1
AllVecs(P, xs) == \A k \in 1..Len(xs) : IsVec(P[xs[k]])

(* the shape denoted by the shape arguments of a constructor; <<>> if none *)
ShapeArg(is, n) ==
  CASE Len(is) = 0 -> <<n, 1>>
    [] Len(is) = 1 -> <<is[1], 1>>
    [] OTHER -> is

Pre(P, c) ==
  LET A == P[c.xs[1]]
      B == P[c.xs[2]]
      n == c.is
      vec == c.op \notin VecOnly \/ IsVec(A)
  IN vec /\
  CASE c.op \in Zip2 \cup Zip2In \cup {"ProdMatrixScalarInPlace", "ApplyInPlace", "ApplyWithAlphaInPlace", "Copy", "DotUnitary"} -> A.sh = B.sh
    [] c.op = "AccGrad" -> A.g = <<>> \/ A.g[1].sh = B.sh
    [] c.op = "Mul" -> Cols(A) = Rows(B)
    [] c.op = "MulT" -> Rows(A) = Rows(B) /\ Cols(B) = 1
    [] c.op \in {"Max", "Min", "ArgMax"} -> Size(A) > 0
    [] c.op = "Item" -> Size(A) = 1
    [] c.op \in {"ScalarAt", "At", "SetScalar"} -> IdxOK(A, n)
    [] c.op = "SetAt" -> Size(B) = 1 /\ IdxOK(A, n)
    [] c.op \in {"SetData", "DataWrite"} -> Len(c.ns) = Size(A)
    [] c.op = "ExtractRow" -> n[1] >= 0 /\ n[1] < Rows(A)
    [] c.op = "ExtractColumn" -> n[1] >= 0 /\ n[1] < Cols(A)
    [] c.op = "Slice" -> /\ n[1] >= 0 /\ n[1] <= n[3] /\ n[3] <= Rows(A)
                         /\ n[2] >= 0 /\ n[2] <= n[4] /\ n[4] <= Cols(A)
    [] c.op \in {"Reshape", "ReshapeInPlace"} -> Len(n) = 2 /\ n[1] >= 0 /\ n[2] >= 0 /\ n[1] * n[2] = Size(A)
    [] c.op \in {"ResizeVector", "PadRows", "PadColumns"} -> n[1] >= 0
    [] c.op = "Range" -> 0 <= n[1] /\ n[1] <= n[2] /\ n[2] <= Size(A)
    [] c.op = "SplitV" -> (\A k \in 1..Len(n) : n[k] >= 0) /\ Sum(n) <= Size(A)
    [] c.op = "Augment" -> Rows(A) = Cols(A)
    [] c.op = "SwapInPlace" -> n[1] >= 0 /\ n[1] < Rows(A) /\ n[2] >= 0 /\ n[2] < Rows(A)
    [] c.op = "AppendRows" -> \A k \in 2..Len(c.xs) : IsVec(P[c.xs[k]]) /\ Size(P[c.xs[k]]) = Cols(A)
    [] c.op = "ConcatV" -> AllVecs(P, c.xs)
    [] c.op = "Stack" -> AllVecs(P, c.xs) /\ \A k \in 1..Len(c.xs) : Size(P[c.xs[k]]) = Size(A)
    [] c.op = "ClipInPlace" -> RLe(c.ns[1], c.ns[2])
    [] c.op = "NewMatrix" ->   \* c.is: shape; c.ns: data, if c.has
         /\ c.has \/ Len(n) > 0
         /\ Len(n) <= 2 /\ \A k \in 1..Len(n) : n[k] >= 0
         /\ c.has => LET s == ShapeArg(n, Len(c.ns)) IN s[1] * s[2] = Len(c.ns)
    [] c.op \in {"Identity", "InitSlice"} -> n[1] >= 0
    [] c.op = "OneHot" -> n[1] >= 0 /\ n[2] >= 0 /\ n[2] < n[1]
    [] c.op = "InitMatrix" -> n[1] >= 0 /\ n[2] >= 0
    [] OTHER -> TRUE

Un(op, x, p) ==
  CASE op = "Abs" -> RAbs(x)
    [] op = "Pow" -> RPow(x, p)
    [] op = "Sqrt" -> RSqrt(x)
    [] op = "Log" -> RLog(x)
    [] op = "Exp" -> RExp(x)
    [] op = "Sigmoid" -> SigmSafe(x)
Bin(op, x, y) ==
  CASE op \in {"Add", "AddInPlace", "AddScalar", "AddScalarInPlace"} -> x \oplus y
    [] op \in {"Sub", "SubInPlace", "SubScalar", "SubScalarInPlace"} -> x \ominus y
    [] op \in {"Prod", "ProdInPlace", "ProdScalar", "ProdScalarInPlace", "ProdMatrixScalarInPlace"} -> x \otimes y
    [] op \in {"Div", "DivInPlace"} -> x \oslash y
    [] op = "Maximum" -> RMax(x, y)
    [] op = "Minimum" -> RMin(x, y)

(* the functions the driver applies *)
Fn(r, q, x) == (x \otimes R(2)) \oplus R(r + 10 * q)
FnAlpha(r, q, x, as) == ((x \otimes as[1]) \oplus RSum(as)) \oplus R(r + 10 * q)
ApplyTo(m, F(_, _, _)) == Mk(Rows(m), Cols(m), LAMBDA i, j : F(i - 1, j - 1, El(m, i, j)))

Cut(m, from, to) == SubSeq(m.v, from + 1, to)
NormOf(m, p) == RPow(RSum(Force([k \in 1..Size(m) |-> RPow(RAbs(m.v[k]), p)])), R1 \oslash p)
CumSumOf(m) == Force([k \in 1..Size(m) |-> RSum(SubSeq(m.v, 1, k))])

Out(P, c) ==
  LET A == As(c.dt, P[c.xs[1]])
      B == As(c.dt, P[c.xs[2]])
      n == c.is
      s == Cv(c.dt, c.ns[1])
      X(k) == As(c.dt, P[c.xs[k]])
  IN
  CASE c.op \in Zip2 -> <<Zip(LAMBDA x, y : Bin(c.op, x, y), A, B)>>
    [] c.op \in ScalOps -> <<Map1(LAMBDA x : Bin(c.op, x, s), A)>>
    [] c.op \in Map1Ops -> <<Map1(LAMBDA x : Un(c.op, x, c.ns[1]), A)>>
    [] c.op = "Clone" -> <<A>>
    [] c.op = "ZerosLike" -> <<Zeros(Rows(A), Cols(A))>>
    [] c.op = "OnesLike" -> <<Fill(Rows(A), Cols(A), R1)>>
    [] c.op = "ExtractRow" -> <<RowV(RowOf(A, n[1] + 1))>>
    [] c.op = "ExtractColumn" -> <<Col(ColOf(A, n[1] + 1))>>
    [] c.op = "Slice" -> <<TSlice(A, n[1], n[2], n[3], n[4])>>
    [] c.op = "Reshape" -> <<TReshape(A, n[1], n[2])>>
    [] c.op = "Flatten" -> <<RowV(A.v)>>
    [] c.op = "ResizeVector" -> <<Col(Force([k \in 1..n[1] |-> IF k <= Size(A) THEN A.v[k] ELSE R0]))>>
    [] c.op = "T" -> <<TT(A)>>
    [] c.op = "Mul" -> <<TMul(A, B)>>
    [] c.op = "MulT" -> <<TMul(TT(A), B)>>
    [] c.op = "DotUnitary" -> <<Scal(RDot(A.v, B.v))>>
    [] c.op = "Sum" -> <<Scal(TSum(A))>>
    [] c.op = "Max" -> <<Scal(TMaxEl(A))>>
    [] c.op = "Min" -> <<Scal(TMinEl(A))>>
    [] c.op = "Softmax" -> <<Col(IF Size(A) = 0 THEN <<>> ELSE SoftmaxSeq(A.v))>>
    [] c.op = "CumSum" -> <<Col(CumSumOf(A))>>
    [] c.op = "Range" -> <<Col(Cut(A, n[1], n[2]))>>
    [] c.op = "SplitV" -> [k \in 1..Len(n) |-> Col(Cut(A, Sum(SubSeq(n, 1, k - 1)), Sum(SubSeq(n, 1, k))))]
    [] c.op = "Augment" -> <<Mk(Rows(A), 2 * Cols(A), LAMBDA i, j :
                               IF j <= Cols(A) THEN El(A, i, j) ELSE IF j - Cols(A) = i THEN R1 ELSE R0)>>
    [] c.op = "PadRows" -> <<Mk(Rows(A) + n[1], Cols(A), LAMBDA i, j : IF i <= Rows(A) THEN El(A, i, j) ELSE R0)>>
    [] c.op = "PadColumns" -> <<Mk(Rows(A), Cols(A) + n[1], LAMBDA i, j : IF j <= Cols(A) THEN El(A, i, j) ELSE R0)>>
    [] c.op = "AppendRows" -> <<[sh |-> <<Rows(A) + Len(c.xs) - 1, Cols(A)>>,
                                 v |-> FoldLeft(LAMBDA acc, k : acc \o X(k).v, <<>>, [k \in 1..Len(c.xs) |-> k])]>>
    [] c.op = "ConcatV" -> <<Col(FoldLeft(LAMBDA acc, k : acc \o X(k).v, <<>>, [k \in 1..Len(c.xs) |-> k]))>>
    [] c.op = "Stack" -> <<[sh |-> IF c.xs = <<>> THEN <<0, 0>> ELSE <<Len(c.xs), Size(A)>>,
                            v |-> FoldLeft(LAMBDA acc, k : acc \o X(k).v, <<>>, [k \in 1..Len(c.xs) |-> k])]>>
    [] c.op = "Norm" -> <<Scal(NormOf(A, c.ns[1]))>>
    [] c.op = "Normalize2" -> LET d == NormOf(A, R(2)) IN <<IF REq(d, R0) THEN A ELSE Map1(LAMBDA x : x \oslash d, A)>>
    [] c.op = "Apply" -> <<ApplyTo(A, Fn)>>
    [] c.op = "ApplyWithAlpha" -> <<ApplyTo(A, LAMBDA i, j, x : FnAlpha(i, j, x, c.ns))>>
    [] c.op = "At" -> <<Scal(A.v[Off(A, n)])>>
    [] c.op = "NewScalar" -> <<Scal(s)>>
    [] c.op = "NewMatrix" ->
         LET sh == ShapeArg(n, Len(c.ns)) IN
         <<IF c.has THEN [sh |-> sh, v |-> Force([k \in 1..Len(c.ns) |-> Cv(c.dt, c.ns[k])])] ELSE Zeros(sh[1], sh[2])>>
    [] c.op = "Identity" -> <<Ident(n[1])>>
    [] c.op = "OneHot" -> <<Col([k \in 1..n[1] |-> IF k = n[2] + 1 THEN R1 ELSE R0])>>
    [] c.op = "InitSlice" -> <<Col([k \in 1..n[1] |-> s])>>
    [] c.op = "InitMatrix" -> <<Mk(n[1], n[2], LAMBDA i, j : Fn(i - 1, j - 1, s))>>

OutRg(c) == c.op \in {"NewMatrix", "NewScalar"} /\ c.rg

Upd(P, c) ==
  LET D == P[c.xs[1]]
      A == [sh |-> D.sh, v |-> D.v]
      B == As(D.dt, P[c.xs[2]])
      n == c.is
      s == Cv(D.dt, c.ns[1])
      Val_(m) == [D EXCEPT !.sh = m.sh, !.v = m.v]
  IN
  CASE c.op \in Zip2In -> Val_(Zip(LAMBDA x, y : Bin(c.op, x, y), A, B))
    [] c.op \in ScalIn -> Val_(Map1(LAMBDA x : Bin(c.op, x, s), A))
    [] c.op = "ProdMatrixScalarInPlace" -> Val_(Map1(LAMBDA x : Bin(c.op, x, s), B))
    [] c.op \in {"SetData", "DataWrite"} -> [D EXCEPT !.v = Force([k \in 1..Len(c.ns) |-> Cv(D.dt, c.ns[k])])]
    [] c.op = "Zeros" -> Val_(Zeros(Rows(A), Cols(A)))
    [] c.op = "SetScalar" -> [D EXCEPT !.v[Off(A, n)] = s]
    [] c.op = "SetAt" -> [D EXCEPT !.v[Off(A, n)] = B.v[1]]
    [] c.op = "ReshapeInPlace" -> [D EXCEPT !.sh = n]
    [] c.op = "FlattenInPlace" -> [D EXCEPT !.sh = <<1, Size(A)>>]
    [] c.op = "TransposeInPlace" -> Val_(TT(A))
    [] c.op = "ClipInPlace" -> Val_(Map1(LAMBDA x : IF RLt(x, Cv(D.dt, c.ns[1])) THEN Cv(D.dt, c.ns[1])
                                                    ELSE IF RLt(Cv(D.dt, c.ns[2]), x) THEN Cv(D.dt, c.ns[2]) ELSE x, A))
    [] c.op = "SwapInPlace" -> Val_(Mk(Rows(A), Cols(A), LAMBDA i, j :
                                 El(A, IF i = n[1] + 1 THEN n[2] + 1 ELSE IF i = n[2] + 1 THEN n[1] + 1 ELSE i, j)))
    [] c.op = "ApplyInPlace" -> Val_(ApplyTo(B, Fn))
    [] c.op = "ApplyWithAlphaInPlace" -> Val_(ApplyTo(B, LAMBDA i, j, x : FnAlpha(i, j, x, c.ns)))
    [] c.op = "Copy" -> Val_(B)
    [] c.op = "AccGrad" -> [D EXCEPT !.g = IF @ = <<>> THEN <<B>> ELSE <<TAdd(@[1], B)>>]
    [] c.op = "ZeroGrad" -> [D EXCEPT !.g = <<>>]
    [] c.op = "SetRequiresGrad" -> [D EXCEPT !.rg = c.rg]

(* functions of numbers, and conversions of their element types *)
MathOf(fn, x, q) ==
  CASE fn = "Abs" -> RAbs(x)
    [] fn = "Tanh" -> RTanh(x)
    [] fn = "Exp" -> RExp(x)
    [] fn = "Cos" -> RCos(x)
    [] fn = "Sin" -> RSin(x)
    [] fn = "Tan" -> RSin(x) \oslash RCos(x)
    [] fn = "Cosh" -> (RExp(x) \oplus RExp(RNeg(x))) \oslash R(2)
    [] fn = "Sinh" -> (RExp(x) \ominus RExp(RNeg(x))) \oslash R(2)
    [] fn = "Sqrt" -> RSqrt(x)
    [] fn = "Log" -> RLog(x)
    [] fn = "Pow" -> RPow(x, q)
    [] fn = "Max" -> RMax(x, q)
    [] fn = "Floor" -> R(RFloor(x))
    [] fn = "Ceil" -> R(-RFloor(RNeg(x)))
    [] fn = "Round" -> IF RLt(x, R0) THEN R(-RFloor(RLit("0.5") \ominus x)) ELSE R(RFloor(x \oplus RLit("0.5")))
    [] fn \in {"F32", "Data32"} -> RFloat32(x)

Bool(b) == IF b THEN R1 ELSE R0
Nums(P, c) ==
  LET D == P[c.xs[1]]
      B == P[c.xs[2]]
      nz == SelectSeq([k \in 1..Len(D.v) |-> k], LAMBDA k : ~REq(D.v[k], R0))
  IN
  CASE c.op = "Item" -> <<D.v[1]>>
    [] c.op = "ScalarAt" -> <<D.v[Off(D, c.is)]>>
    [] c.op = "ArgMax" -> <<R((CHOOSE k \in 1..Len(D.v) :
                              (\A j \in 1..Len(D.v) : ~RLt(D.v[k], D.v[j])) /\ (\A j \in 1..(k - 1) : RLt(D.v[j], D.v[k]))) - 1)>>
    [] c.op = "DoNonZero" ->
         FoldLeft(LAMBDA acc, k : acc \o <<R((k - 1) \div Cols(D)), R((k - 1) % Cols(D)), D.v[k]>>, <<>>, nz)
    [] c.op = "DoVecNonZero" -> FoldLeft(LAMBDA acc, k : acc \o <<R(k - 1), D.v[k]>>, <<>>, nz)
    [] c.op = "Equal" -> <<Bool(D.sh = B.sh /\ LET E == As(D.dt, B) IN \A k \in 1..Len(D.v) : REq(D.v[k], E.v[k]))>>
    [] c.op = "InDelta" -> <<Bool(D.sh = B.sh /\ LET E == As(D.dt, B) IN \A k \in 1..Len(D.v) : RLe(RAbs(D.v[k] \ominus E.v[k]), c.ns[1]))>>
    [] c.op = "SameDims" -> <<Bool(D.sh = B.sh)>>
    [] c.op = "IsVector" -> <<Bool(IsVec(D))>>
    [] c.op = "IsScalar" -> <<Bool(Size(D) = 1)>>
    [] c.op = "MathFn" -> Force([k \in 1..Len(D.v) |-> MathOf(c.fn, D.v[k], c.ns[1])])
    [] c.op = "Size" -> <<R(Size(D)), R(Rows(D)), R(Cols(D))>>

(* how far rounding may take a result from its definition *)
MaxAbs(m) == IF Len(m.v) = 0 THEN R0 ELSE FoldLeft(LAMBDA a, x : RMax(a, RAbs(x)), R0, m.v)
ExactOps == {"Clone", "ZerosLike", "OnesLike", "ExtractRow", "ExtractColumn", "Slice", "Reshape", "Flatten", "ResizeVector", "T",
             "Max", "Min", "Maximum", "Minimum", "Abs", "Range", "SplitV", "Augment", "PadRows", "PadColumns", "AppendRows", "ConcatV",
             "Stack", "At", "NewScalar", "NewMatrix", "Identity", "OneHot", "InitSlice", "SetData", "DataWrite", "Zeros", "SetScalar", "SetAt",
             "ReshapeInPlace", "FlattenInPlace", "TransposeInPlace", "ClipInPlace", "SwapInPlace", "Copy", "ZeroGrad", "SetRequiresGrad"}
(* with small integers, all arithmetic of these is exact *)
IntExact == {"Add", "Sub", "Prod", "AddScalar", "SubScalar", "ProdScalar", "AddInPlace", "SubInPlace", "ProdInPlace",
             "AddScalarInPlace", "SubScalarInPlace", "ProdScalarInPlace", "ProdMatrixScalarInPlace", "Mul", "MulT", "DotUnitary", "Sum", "CumSum",
             "Apply", "ApplyInPlace", "ApplyWithAlpha", "ApplyWithAlphaInPlace", "InitMatrix", "AccGrad"}
AccOps == {"Mul", "MulT", "DotUnitary", "Sum", "CumSum"}
Exact(P, c) ==
  \/ c.op \in ExactOps
  \/ /\ c.op \in IntExact
     /\ \A k \in 1..Len(c.xs) : \A j \in 1..Len(P[c.xs[k]].v) : IsInt(P[c.xs[k]].v[j])
     /\ \A k \in 1..Len(c.ns) : IsInt(c.ns[k])
     /\ c.op = "AccGrad" => P[c.xs[1]].g = <<>> \/ \A j \in 1..Len(P[c.xs[1]].g[1].v) : IsInt(P[c.xs[1]].g[1].v[j])
Rel(P, c) ==
  IF Exact(P, c) \/ c.op \in AccOps THEN R0
  ELSE IF c.dt = "f32" THEN (IF c.op \in {"Softmax"} THEN RLit("1e-4") ELSE RLit("1e-5")) ELSE RLit("1e-12")
Abs_(P, c) ==
  IF Exact(P, c) THEN R0
  ELSE IF c.op \in AccOps THEN
    LET A == P[c.xs[1]]
        m == MaxAbs(A) \otimes (IF c.op \in {"Sum", "CumSum"} THEN R1 ELSE MaxAbs(P[c.xs[2]]))
        \* a sum of n terms of one sign may be off by u/2 in each of n partial sums as large as n*m
        long == IF c.op \in {"Mul", "MulT"} THEN R0 ELSE R(Size(A) * Size(A)) \otimes m
    IN  ((R(1 + Size(A)) \otimes m) \otimes (IF c.dt = "f32" THEN RLit("1e-6") ELSE RLit("1e-14")))
        \oplus (long \otimes (IF c.dt = "f32" THEN RLit("1.2e-7") ELSE RLit("2.3e-16")))
  ELSE IF c.op \in {"Log", "Apply", "ApplyInPlace", "ApplyWithAlpha", "ApplyWithAlphaInPlace", "AccGrad", "InitMatrix"}
    THEN (IF c.dt = "f32" THEN RLit("1e-5") ELSE RLit("1e-13"))
  ELSE IF c.dt = "f32" THEN RLit("1e-37") ELSE RLit("1e-300")
=============================================================================
