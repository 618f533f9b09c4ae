------------------------------- MODULE Layers -------------------------------
(***************************************************************************)
(* The defining formulas of the layers of package nn, of the convolution   *)
(* and attention functions, of the conditional random field and of the     *)
(* losses.                                                                 *)
(*                                                                         *)
(* T is a sequence of tensors (parameters, buffers and inputs); a model m  *)
(* is a record with its kind, its settings, its sub-models, and the        *)
(* positions of its parameters in T.  Only values are defined here; the    *)
(* derivatives follow by evaluating the formulas on dual numbers.          *)
(***************************************************************************)
EXTENDS Ops

Seq1(n, F(_)) == Force([k \in 1..n |-> F(k)])
SelectSeqIdx(n, Keep(_)) == SelectSeq([k \in 1..n |-> k], Keep)
Pick(T, is) == Seq1(Len(is), LAMBDA k : T[is[k]])
Activate(name, ps, x) == IF name = "Identity" THEN x ELSE OpFwd(name, <<>>, <<x>> \o ps)

AffineX(w, x, b) == TAdd(TMul(w, x), b)
Lin(T, m, x) == AffineX(T[m.W], x, T[m.B])

(* ---- normalization ---- *)
MeanSq(x) == RSum(Seq1(Size(x), LAMBDA k : x.v[k] \otimes x.v[k])) \oslash R(Size(x))
SumSq(x) == RSum(Seq1(Size(x), LAMBDA k : x.v[k] \otimes x.v[k]))
Centered(x) == LET mu == TMean(x) IN Map1(LAMBDA e : e \ominus mu, x)
DivBy(x, s) == Map1(LAMBDA e : e \oslash s, x)
Tiny == RLit("1e-10")
LayerNorm(x, w, b, eps) ==
  LET d == Centered(x)
      s == RSqrt(MeanSq(d) \oplus eps)
  IN  TAdd(TProd(DivBy(d, s), w), b)
LayerNormSimple(x) == LET d == Centered(x) IN DivBy(d, RSqrt(MeanSq(d)) \oplus Tiny)
(* the factor 1 - k*y is a constant for the derivative *)
AdaNorm(x, scale) ==
  LET y == LayerNormSimple(x)
      f == Map1(LAMBDA e : RVal((R1 \ominus (RLit("0.1") \otimes e)) \otimes scale), y)
  IN  TProd(y, f)
RMSNorm(x, w, b) == TAdd(TProd(DivBy(x, RSqrt(MeanSq(x)) \oplus Tiny), w), b)
FixNorm(x) == DivBy(x, RSqrt(SumSq(x)) \oplus Tiny)
ScaleNorm(x, g) == TProd(FixNorm(x), g)

(* batch normalization: the statistics of a batch, and their use *)
BnEps == RLit("1e-5")
BatchMean(xs) == TScale(TSumAll(xs), R1 \oslash (R(Len(xs)) \oplus BnEps))
BatchDev(xs, mean) ==
  LET sq == Seq1(Len(xs), LAMBDA k : LET d == TSub(mean, xs[k]) IN TProd(d, d))
  IN  Map1(RSqrt, TScale(TSumAll(sq), R1 \oslash (R(Len(xs)) \oplus BnEps)))
BatchNorm(xs, mean, dev, w, b) ==
  LET f == TDiv(w, TShift(dev, BnEps))
  IN  Seq1(Len(xs), LAMBDA k : TAdd(TProd(TSub(xs[k], mean), f), b))
BatchTrain(xs, w, b) == LET mean == BatchMean(xs) IN BatchNorm(xs, mean, BatchDev(xs, mean), w, b)
Average(old, new, momentum) == TAdd(TScale(old, momentum), TScale(new, R1 \ominus momentum))

(* ---- convolution ---- *)
ConvFits(xn, wn, stride) == xn >= wn /\ (xn - wn) % stride = 0
Conv1Fits(w, x, stride) == Rows(w) = Rows(x) /\ ConvFits(Cols(x), Cols(w), stride)
Conv2Fits(w, x, sx, sy) == ConvFits(Rows(x), Rows(w), sx) /\ ConvFits(Cols(x), Cols(w), sy)
Window(x, w, fr, fc) == RDot(TSlice(x, fr, fc, fr + Rows(w), fc + Cols(w)).v, w.v)
Conv1(w, x, stride) ==
  Col(Seq1(((Cols(x) - Cols(w)) \div stride) + 1, LAMBDA i : Window(x, w, 0, (i - 1) * stride)))
Conv2(w, x, sx, sy) ==
  Mk(((Rows(x) - Rows(w)) \div sx) + 1, ((Cols(x) - Cols(w)) \div sy) + 1,
     LAMBDA i, j : Window(x, w, (i - 1) * sx, (j - 1) * sy))

(* one output channel: the convolutions of the input channels that are not masked, with their biases *)
Channel(T, m, xs, o, Conv(_, _)) ==
  LET c == m.Config
      one(k, x) == TShift(Conv(T[m.K[k]], x), Item(T[m.B[k]]))
      used == SelectSeqIdx(Len(xs), LAMBDA i : IF Len(c.Mask) = 0 THEN TRUE ELSE c.Mask[i] = 1)
      off == (o - 1) * c.InputChannels
  IN  Activate(c.Activation, <<>>,
        IF c.DepthWise THEN one(o, xs[o])
        ELSE TSumAll(Seq1(Len(used), LAMBDA n : one(used[n] + off, xs[used[n]]))))

Conv1x1(T, m, xs) ==
  LET w == T[m.W]  b == T[m.B]
  IN  Seq1(Rows(w), LAMBDA o :
        Col(Seq1(Size(xs[1]), LAMBDA p :
          RSum(Seq1(Len(xs), LAMBDA i : El(w, o, i) \otimes xs[i].v[p])) \oplus b.v[o])))

(* ---- recurrent networks: state, step and run ---- *)
RecAffine(T, b, w, x, wr, y) == IF y = <<>> THEN AffineX(w, x, b) ELSE TAdd(AffineX(w, x, b), TMul(wr, y))
SigT(x) == Map1(SigmSafe, x)
TanhT(x) == Map1(RTanh, x)
Complement(x) == Map1(LAMBDA e : R1 \ominus e, x)

SrnStep(T, m, s, x) == [Y |-> TanhT(RecAffine(T, T[m.B], T[m.W], x, T[m.WRec], s.Y))]
GruStep(T, m, s, x) ==
  LET r == SigT(RecAffine(T, T[m.BRes], T[m.WRes], x, T[m.WResRec], s.Y))
      p == SigT(RecAffine(T, T[m.BPart], T[m.WPart], x, T[m.WPartRec], s.Y))
      c == TanhT(RecAffine(T, T[m.BCand], T[m.WCand], x, T[m.WCandRec],
                           IF s.Y = <<>> THEN <<>> ELSE TProd(s.Y, r)))
      pc == TProd(p, c)
  IN  [Y |-> IF s.Y = <<>> THEN pc ELSE TAdd(pc, TProd(Complement(p), s.Y))]
LstmStep(T, m, s, x) ==
  LET g(b, w, wr) == RecAffine(T, T[b], T[w], x, T[wr], s.Y)
      i0 == SigT(g(m.BIn, m.WIn, m.WInRec))
      o0 == SigT(g(m.BOut, m.WOut, m.WOutRec))
      f == SigT(g(m.BFor, m.WFor, m.WForRec))
      u == TanhT(g(m.BCand, m.WCand, m.WCandRec))
      i == IF m.UseRefinedGates THEN TProd(i0, x) ELSE i0
      o == IF m.UseRefinedGates THEN TProd(o0, x) ELSE o0
      iu == TProd(i, u)
      cell == IF s.Cell = <<>> THEN iu ELSE TAdd(iu, TProd(f, s.Cell))
  IN  [Y |-> TProd(o, TanhT(cell)), Cell |-> cell]

NoState == [Y |-> <<>>, Cell |-> <<>>]
RnnStep(T, m, s, x) ==
  CASE m.kind = "srn.Model" -> SrnStep(T, m, s, x)
    [] m.kind = "gru.Model" -> GruStep(T, m, s, x)
    [] m.kind = "lstm.Model" -> LstmStep(T, m, s, x)
RnnRun(T, m, s0, xs) ==   \* the states after each input
  FoldLeft(LAMBDA acc, x : Append(acc, RnnStep(T, m, IF acc = <<>> THEN s0 ELSE acc[Len(acc)], x)), <<>>, xs)

(* sentence-state LSTM: all positions and the sentence evolve together *)
SlGate(T, g, ctx, vg, x) ==
  TAdd(TAdd(TAdd(T[g.B], TMul(T[g.W], ctx)), TMul(T[g.V], vg)), TMul(T[g.U], x))
SlNode(T, m, st, xs, i) ==
  LET n == Len(xs)
      lh == IF i = 1 THEN T[m.StartH] ELSE st.h[i - 1]
      lc == IF i = 1 THEN T[m.StartH] ELSE st.c[i - 1]
      rh == IF i = n THEN T[m.EndH] ELSE st.h[i + 1]
      rc == IF i = n THEN T[m.EndH] ELSE st.c[i + 1]
      ctx == TConcat(<<lh, st.h[i], rh>>)
      gate(g) == SigT(SlGate(T, g, ctx, st.g, xs[i]))
      u == TanhT(SlGate(T, m.InputActivation, ctx, st.g, xs[i]))
      c == TSumAll(<<TProd(gate(m.LeftCellGate), lc), TProd(gate(m.CellGate), st.c[i]),
                     TProd(gate(m.RightCellGate), rc), TProd(gate(m.SentCellGate), st.g),
                     TProd(gate(m.InputGate), u)>>)
  IN  [h |-> TProd(gate(m.OutputGate), TanhT(c)), c |-> c]
SlSentence(T, m, st) ==
  LET n == Len(st.h)
      avg == TScale(TSumAll(st.h), R1 \oslash R(n))
      gate(g, h) == SigT(TAdd(AffineX(T[g.W], st.g, T[g.B]), TMul(T[g.U], h)))
      cg == TAdd(TProd(gate(m.NonLocalSentCellGate, avg), st.g),
                 TSumAll(Seq1(n, LAMBDA i : TProd(gate(m.NonLocalInputGate, st.h[i]), st.c[i]))))
  IN  TProd(gate(m.NonLocalSentOutputGate, avg), TanhT(cg))
SlStep(T, m, st, xs) ==
  LET nodes == Seq1(Len(xs), LAMBDA i : SlNode(T, m, st, xs, i))
  IN  [h |-> Seq1(Len(xs), LAMBDA i : nodes[i].h), c |-> Seq1(Len(xs), LAMBDA i : nodes[i].c),
       g |-> SlSentence(T, m, st)]
Slstm(T, m, xs) ==
  LET v == T[m.InitValue]
      st0 == [h |-> Seq1(Len(xs), LAMBDA i : v), c |-> Seq1(Len(xs), LAMBDA i : v), g |-> v]
  IN  FoldLeft(LAMBDA st, t : SlStep(T, m, st, xs), st0, Seq1(m.Config.Steps - 1, LAMBDA t : t)).h

Reverse(s) == Seq1(Len(s), LAMBDA k : s[Len(s) + 1 - k])
MergeBi(mode, a, b) ==
  CASE mode = "Concat" -> TConcat(<<a, b>>)
    [] mode = "Sum" -> TAdd(a, b)
    [] mode = "Prod" -> TProd(a, b)
    [] mode = "Avg" -> TScale(TAdd(a, b), Half)

(* ---- attention: query i sees the first n[i] of the keys ---- *)
Weights(q, k, n, scale) ==   \* over all keys, zero for those that are not seen
  LET z == Seq1(n, LAMBDA j : RDot(RowOf(k, j), q.v) \otimes scale)
      s == SoftmaxSeq(z)
  IN  Col(Seq1(Rows(k), LAMBDA j : IF j <= n THEN s[j] ELSE R0))
Attend(w, v) == TMul(TT(v), w)

(* The self-attention of a sequence of pieces: keys and values of a piece
   are added to those of the pieces before it, unless they are those of
   another sequence, given with the first piece. *)
PieceEnd(ps, p) == FoldLeft(LAMBDA a, b : a + b, 0, Seq1(p, LAMBDA k : Len(ps[k])))
KeysOf(T, lin, xs) == TStack(Seq1(Len(xs), LAMBDA k : Lin(T, lin, xs[k])))
FlattenSeqs(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
(* qs, xs: the pieces of the queries and of the sequence attended to *)
SelfAttention(T, m, qs, xs) ==
  LET n == Len(qs)
      src == IF m.IsCrossAttention THEN xs[1] ELSE FlattenSeqs(xs)
      k == KeysOf(T, m.Key, src)
      v == KeysOf(T, m.Value, src)
      known(p) == IF m.IsCrossAttention THEN Len(src) ELSE PieceEnd(xs, p)
      seen(p, i) == IF m.UseCausalMask /\ ~m.IsCrossAttention THEN PieceEnd(xs, p - 1) + i ELSE known(p)
      sc == Item(T[m.ScaleFactor])
      w(p, i) == Weights(Lin(T, m.Query, qs[p][i]), TSlice(k, 0, 0, known(p), Cols(k)), seen(p, i), sc)
      at == Seq1(n, LAMBDA p : Seq1(Len(qs[p]), LAMBDA i :
              LET ww == w(p, i) IN [w |-> ww, y |-> Attend(ww, TSlice(v, 0, 0, known(p), Cols(v)))]))
      flat == FlattenSeqs(at)
  IN  [y |-> Seq1(Len(flat), LAMBDA i : flat[i].y), w |-> Seq1(Len(flat), LAMBDA i : flat[i].w), k |-> k, v |-> v]
MultiHead(T, m, qs, xs) ==
  LET hs == Seq1(Len(m.Heads), LAMBDA h : SelfAttention(T, m.Heads[h], qs, xs))
      n == Len(hs[1].y)
  IN  [y |-> Seq1(n, LAMBDA i : Lin(T, m.OutputMerge, TConcat(Seq1(Len(hs), LAMBDA h : hs[h].y[i])))),
       h |-> hs]

(* ---- the layers with a Forward method ---- *)
RECURSIVE Forward(_, _, _)
FeedAll(T, ms, xs) == FoldLeft(LAMBDA ys, m : Forward(T, m, ys), xs, ms)
Each(xs, F(_)) == Seq1(Len(xs), LAMBDA k : F(xs[k]))
AddEach(xs, ys) == Seq1(Len(xs), LAMBDA k : TAdd(xs[k], ys[k]))
Forward(T, m, xs) ==
  CASE m.kind = "linear.Model" -> Each(xs, LAMBDA x : Lin(T, m, x))
    [] m.kind = "activation.Model" -> Each(xs, LAMBDA x : Activate(m.Activation, Pick(T, m.Params), x))
    [] m.kind = "highway.Model" -> Each(xs, LAMBDA x :
         LET t == SigT(AffineX(T[m.WT], x, T[m.BT]))
             h == Activate(m.Activation, <<>>, AffineX(T[m.WIn], x, T[m.BIn]))
         IN  TAdd(TProd(t, h), TProd(Complement(t), x)))
    [] m.kind = "flatten.Model" -> <<TConcat(xs)>>
    [] m.kind = "dropout.Model" -> xs   \* without dropping
    [] m.kind = "sqrdist.Model" -> Each(xs, LAMBDA x : LET bh == TMul(T[m.B], x) IN Scal(SumSq(bh)))
    [] m.kind = "pooling.MaxPooling" -> Each(xs, LAMBDA x : PoolOf(x, m.Rows, m.Columns))
    [] m.kind \in {"mlpmixer.FeedForward", "gmlp.Block", "main.Stack"} -> FeedAll(T, m.Layers, xs)
    [] m.kind = "mlpmixer.MixerBlock" ->
         LET ns == Forward(T, m.TokenLayerNorm, xs)
             cols == Seq1(Rows(xs[1]), LAMBDA j : Col(Seq1(Len(ns), LAMBDA i : ns[i].v[j])))
             ys == Forward(T, m.TokenMixerFF, cols)
             mixed == Seq1(Len(xs), LAMBDA i : Col(Seq1(Len(ys), LAMBDA j : ys[j].v[i])))
             zs == AddEach(mixed, xs)
         IN  AddEach(Forward(T, m.ChannelMixerFF, Forward(T, m.ChannelLayerNorm, zs)), zs)
    [] m.kind = "gmlp.PreNorm" -> Forward(T, m.Block, Forward(T, m.Norm, xs))
    [] m.kind = "gmlp.Residual" -> AddEach(Forward(T, m.PreNorm, xs), xs)
    [] m.kind = "gmlp.Model" ->
         FeedAll(T, m.Layers, xs \o Seq1(m.Config.SeqLen - Len(xs), LAMBDA k : Zeros(m.Config.Dim, 1)))
    [] m.kind = "sgu.Model" ->
         LET n == Rows(xs[1])
             half == n \div 2
             res == Each(xs, LAMBDA x : TSlice(x, 0, 0, half, 1))
             gate == Forward(T, m.Proj, Forward(T, m.Norm, Each(xs, LAMBDA x : TSlice(x, half, 0, n, 1))))
             act == IF m.Act.kind = "nil" THEN gate ELSE Forward(T, m.Act, gate)
         IN  Seq1(Len(xs), LAMBDA k : TProd(act[k], res[k]))
    [] m.kind = "conv1x1.Model" -> Conv1x1(T, m, xs)
    [] m.kind = "convolution1d.Model" ->
         Seq1(m.Config.OutputChannels, LAMBDA o : Channel(T, m, xs, o, LAMBDA w, x : Conv1(w, x, m.Config.YStride)))
    [] m.kind = "convolution2d.Model" ->
         Seq1(m.Config.OutputChannels, LAMBDA o :
           Channel(T, m, xs, o, LAMBDA w, x : Conv2(w, x, m.Config.XStride, m.Config.YStride)))
    [] m.kind = "layernorm.Model" -> Each(xs, LAMBDA x : LayerNorm(x, T[m.W], T[m.B], Item(T[m.Eps])))
    [] m.kind = "layernormsimple.Model" -> Each(xs, LayerNormSimple)
    [] m.kind = "adanorm.Model" -> Each(xs, LAMBDA x : AdaNorm(x, Item(T[m.Scale])))
    [] m.kind = "rmsnorm.Model" -> Each(xs, LAMBDA x : RMSNorm(x, T[m.W], T[m.B]))
    [] m.kind = "scalenorm.Model" -> Each(xs, LAMBDA x : ScaleNorm(x, T[m.Gain]))
    [] m.kind = "fixnorm.Model" -> Each(xs, FixNorm)
    [] m.kind = "batchnorm.Model" -> BatchNorm(xs, T[m.Mean], T[m.StdDev], T[m.W], T[m.B])
    [] m.kind \in {"srn.Model", "gru.Model", "lstm.Model"} ->
         LET ss == RnnRun(T, m, NoState, xs) IN Seq1(Len(xs), LAMBDA k : ss[k].Y)
    [] m.kind = "slstm.Model" -> Slstm(T, m, xs)
    [] m.kind = "birnn.Model" ->
         LET p == Forward(T, m.Positive, xs)
             q == Reverse(Forward(T, m.Negative, Reverse(xs)))
         IN  Seq1(Len(p), LAMBDA k : MergeBi(m.MergeMode, p[k], q[k]))

(* sizes that a layer with windows accepts *)
Accepts(T, m, xs) ==
  CASE m.kind = "convolution1d.Model" ->
         \A k \in 1..Len(m.K) : \A i \in 1..Len(xs) : Conv1Fits(T[m.K[k]], xs[i], m.Config.YStride)
    [] m.kind = "convolution2d.Model" ->
         \A k \in 1..Len(m.K) : \A i \in 1..Len(xs) : Conv2Fits(T[m.K[k]], xs[i], m.Config.XStride, m.Config.YStride)
    [] m.kind = "pooling.MaxPooling" -> \A i \in 1..Len(xs) : Rows(xs[i]) % m.Rows = 0 /\ Cols(xs[i]) % m.Columns = 0
    [] m.kind = "gmlp.Model" -> Len(xs) <= m.Config.SeqLen
    [] m.kind = "mlpmixer.MixerBlock" -> Len(xs) = m.Channels
    [] OTHER -> TRUE

(* ---- conditional random field ---- *)
(* trans: row and column 1 are the start and end; em: emissions, one column vector per position *)
TransAt(trans, a, b) == El(trans, a + 1, b + 1)
PathScore(trans, em, path) ==
  LET n == Len(path)
  IN  RSum(Seq1(n, LAMBDA k : em[k].v[path[k]])
           \o Seq1(n - 1, LAMBDA k : TransAt(trans, path[k], path[k + 1]))
           \o <<TransAt(trans, 0, path[1]), TransAt(trans, path[n], 0)>>)
Paths(n, L) == [1..n -> 1..L]
Labels(trans) == Rows(trans) - 1
(* over all label sequences, by definition ... *)
RECURSIVE SetToSeqOf(_)
SetToSeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeqOf(S \ {x})
AllScores(trans, em) ==
  LET ps == SetToSeqOf(Paths(Len(em), Labels(trans)))
  IN  Seq1(Len(ps), LAMBDA k : PathScore(trans, em, ps[k]))
CrfTotalDef(trans, em) == LogSumExpSeq(AllScores(trans, em))
CrfBestDef(trans, em) == LET ss == AllScores(trans, em) IN FoldLeft(RMax, ss[1], ss)
(* ... and by the recursion over positions, Agg being the log of the sum of exponentials or the maximum *)
CrfRec(trans, em, Agg(_)) ==
  LET L == Labels(trans)
      a1 == Seq1(L, LAMBDA j : em[1].v[j] \oplus TransAt(trans, 0, j))
      step(a, k) == Seq1(L, LAMBDA j :
                      Agg(Seq1(L, LAMBDA i : a[i] \oplus TransAt(trans, i, j))) \oplus em[k].v[j])
      an == FoldLeft(step, a1, Seq1(Len(em) - 1, LAMBDA k : k + 1))
  IN  Agg(Seq1(L, LAMBDA j : an[j] \oplus TransAt(trans, j, 0)))
MaxSeq(s) == FoldLeft(RMax, s[1], s)
CrfTotal(trans, em) == IF Len(em) <= 3 THEN CrfTotalDef(trans, em) ELSE CrfRec(trans, em, LogSumExpSeq)
CrfBest(trans, em) == IF Len(em) <= 3 THEN CrfBestDef(trans, em) ELSE CrfRec(trans, em, MaxSeq)
CrfNll(trans, em, gold) == CrfTotal(trans, em) \ominus PathScore(trans, em, gold)

(* ---- losses ---- *)
Reduce(x, mean) == IF mean THEN TMean(x) ELSE TSum(x)
MAEOf(x, y, mean) == Reduce(Map1(RAbs, TSub(x, y)), mean)
MSEOf(x, y, mean) == Reduce(Map1(LAMBDA d : Half \otimes d \otimes d, TSub(x, y)), mean)
NLLOf(x, y) == RNeg(RSum(Seq1(Size(x), LAMBDA k : y.v[k] \otimes RLog(x.v[k]))))
CEOf(x, c) == LogSumExpSeq(x.v) \ominus x.v[c]
(* 1 - exp(-CE) as the sum of the probabilities of the other classes; the loss tends to 0 with it *)
FocalOf(x, c, gamma) ==
  LET p == SoftmaxSeq(x.v)
      q == RSum(Seq1(Size(x), LAMBDA k : IF k = c THEN R0 ELSE p[k]))
  IN  IF REq(gamma, R0) THEN CEOf(x, c) ELSE RPow(q, gamma) \otimes CEOf(x, c)
ZeroOneOf(x) == RSum(Seq1(Size(x), LAMBDA k : LET e == x.v[k] IN e \otimes e \otimes (R1 \ominus e) \otimes (R1 \ominus e)))
Norm2Of(x) == LET d == SumSq(x) \ominus R1 IN d \otimes d
SeqLoss(n, F(_), mean) == LET s == RSum(Seq1(n, F)) IN IF mean THEN s \oslash R(n) ELSE s
Loss(T, a) ==   \* a: the arguments of the call
  LET x == Pick(T, a.x)
      y == Pick(T, a.y)
  IN  CASE a.loss = "MAE" -> MAEOf(x[1], y[1], a.mean)
        [] a.loss = "MSE" -> MSEOf(x[1], y[1], a.mean)
        [] a.loss = "NLL" -> NLLOf(x[1], y[1])
        [] a.loss = "CrossEntropy" -> CEOf(x[1], a.c[1])
        [] a.loss = "WeightedCrossEntropy" -> T[a.w].v[a.c[1]] \otimes CEOf(x[1], a.c[1])
        [] a.loss = "FocalLoss" -> FocalOf(x[1], a.c[1], a.gamma)
        [] a.loss = "WeightedFocalLoss" -> T[a.w].v[a.c[1]] \otimes FocalOf(x[1], a.c[1], a.gamma)
        [] a.loss = "Perplexity" -> RExp(CEOf(x[1], a.c[1]))
        [] a.loss = "ZeroOneQuantization" -> ZeroOneOf(x[1])
        [] a.loss = "Norm2Quantization" -> Norm2Of(x[1])
        [] a.loss = "OneHotQuantization" -> a.q \otimes (ZeroOneOf(x[1]) \oplus Norm2Of(x[1]))
        [] a.loss = "Distance" -> RAbs(a.q \ominus Item(x[1]))
        [] a.loss = "MSESeq" -> SeqLoss(Len(x), LAMBDA k : MSEOf(x[k], y[k], FALSE), a.mean)
        [] a.loss = "MAESeq" -> SeqLoss(Len(x), LAMBDA k : MAEOf(x[k], y[k], FALSE), a.mean)
        [] a.loss = "CrossEntropySeq" -> SeqLoss(Len(x), LAMBDA k : CEOf(x[k], a.c[k]), a.mean)
        [] a.loss = "SPG" -> RNeg(RSum(Seq1(Len(x), LAMBDA k : Item(x[k]) \otimes Item(y[k]))))
=============================================================================
