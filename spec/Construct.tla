----------------------------- MODULE Construct -----------------------------
(***************************************************************************)
(* What a constructor of package nn returns (properties C18 to C24): the   *)
(* settings that were asked for, sub-models and parameters of the sizes    *)
(* that the defining formulas of Layers.tla need, parameters that train    *)
(* unless the configuration masks them, and buffers that do not.           *)
(*                                                                         *)
(* T: the tensors that were met in the model, with rg telling whether they *)
(* require a gradient.  a: what was asked for.  m: the model.              *)
(***************************************************************************)
EXTENDS Ops

IsPos(T, p) == p \in 1..Len(T)
AllZero(v) == \A k \in 1..Len(v) : REq(v[k], R0)
\* a parameter of a shape, whatever its values
ParamOf(T, p, sh) == IsPos(T, p) /\ T[p].sh = sh
\* ... without values yet, and one that trains
Fresh(T, p, sh, trains) == ParamOf(T, p, sh) /\ T[p].rg = trains /\ AllZero(T[p].v)
Zero(T, p, sh) == Fresh(T, p, sh, TRUE)
Vec(n) == <<n, 1>>
Buffer(T, p, sh) == ParamOf(T, p, sh) /\ ~T[p].rg
Setting(T, p, x) == Buffer(T, p, <<1, 1>>) /\ RNear(T[p].v[1], x, RLit("1e-6"), R0)

LinearOf(T, m, in, out) == m.kind = "linear.Model" /\ Zero(T, m.W, <<out, in>>) /\ Zero(T, m.B, Vec(out))
ActOf(m, act) == m.kind = "activation.Model" /\ m.Activation = act /\ m.Params = <<>>
NormOf(T, m, n, eps) ==
  m.kind = "layernorm.Model" /\ Zero(T, m.W, Vec(n)) /\ Zero(T, m.B, Vec(n)) /\ Setting(T, m.Eps, eps)
Conv1x1Of(T, m, in, out) ==
  /\ m.kind = "conv1x1.Model" /\ m.Config.InputChannels = in /\ m.Config.OutputChannels = out
  /\ Zero(T, m.W, <<out, in>>) /\ Zero(T, m.B, Vec(out))
SguOf(T, m, dim, seq, act, eps) ==
  /\ m.kind = "sgu.Model" /\ m.Config.Dim = dim /\ m.Config.DimSeq = seq /\ m.Config.Activation = act
  /\ NormOf(T, m.Norm, dim \div 2, eps)
  /\ Conv1x1Of(T, m.Proj, seq, seq)
  /\ IF act = "Identity" THEN m.Act.kind = "nil" \/ ActOf(m.Act, act) ELSE ActOf(m.Act, act)
GmlpPart(T, m, a) ==
  /\ m.kind = "gmlp.Residual" /\ m.PreNorm.kind = "gmlp.PreNorm"
  /\ NormOf(T, m.PreNorm.Norm, a.dim, a.eps)
  /\ LET ls == m.PreNorm.Block.Layers IN
       /\ m.PreNorm.Block.kind = "gmlp.Block" /\ Len(ls) = 4
       /\ LinearOf(T, ls[1], a.dim, a.ff)
       /\ ActOf(ls[2], "GELU")
       /\ SguOf(T, ls[3], a.ff, a.seq, a.act, a.eps)
       /\ LinearOf(T, ls[4], a.ff \div 2, a.dim)
FeedOf(T, m, dim, hidden, act) ==
  /\ m.kind = "mlpmixer.FeedForward" /\ Len(m.Layers) = 3
  /\ LinearOf(T, m.Layers[1], dim, hidden) /\ ActOf(m.Layers[2], act) /\ LinearOf(T, m.Layers[3], hidden, dim)

\* the kernels and biases: one of each per pair of channels, or per channel
Masked(a, k) == a.masked /\ a.mask[((k - 1) % a.in) + 1] = 0
KernelsOf(T, m, a) ==
  LET n == IF a.dw THEN a.in ELSE a.in * a.out
  IN  /\ Len(m.K) = n /\ Len(m.B) = n
      /\ \A k \in 1..n : Fresh(T, m.K[k], <<a.kx, a.ky>>, ~Masked(a, k)) /\ Fresh(T, m.B[k], <<1, 1>>, ~Masked(a, k))
ConvOf(T, m, a) ==
  LET c == m.Config
  IN  /\ c.KernelSizeX = a.kx /\ c.KernelSizeY = a.ky /\ c.YStride = a.sy
      /\ c.InputChannels = a.in /\ c.OutputChannels = a.out /\ c.DepthWise = a.dw /\ c.Activation = a.act
      /\ c.Mask = a.mask
      /\ KernelsOf(T, m, a)

SrnOf(T, m, in, out) == m.kind = "srn.Model" /\ Zero(T, m.W, <<out, in>>) /\ Zero(T, m.WRec, <<out, out>>) /\ Zero(T, m.B, Vec(out))
Gate(T, w, r, b, in, out) == Zero(T, w, <<out, in>>) /\ Zero(T, r, <<out, out>>) /\ Zero(T, b, Vec(out))
GruOf(T, m, in, out) ==
  /\ m.kind = "gru.Model"
  /\ Gate(T, m.WPart, m.WPartRec, m.BPart, in, out)
  /\ Gate(T, m.WRes, m.WResRec, m.BRes, in, out)
  /\ Gate(T, m.WCand, m.WCandRec, m.BCand, in, out)
LstmOf(T, m, in, out, refined) ==
  /\ m.kind = "lstm.Model" /\ m.UseRefinedGates = refined
  /\ Gate(T, m.WIn, m.WInRec, m.BIn, in, out)
  /\ Gate(T, m.WOut, m.WOutRec, m.BOut, in, out)
  /\ Gate(T, m.WFor, m.WForRec, m.BFor, in, out)
  /\ Gate(T, m.WCand, m.WCandRec, m.BCand, in, out)
RnnOf(T, m, kind, in, out) ==
  CASE kind = "srn" -> SrnOf(T, m, in, out)
    [] kind = "gru" -> GruOf(T, m, in, out)
    [] kind = "lstm" -> LstmOf(T, m, in, out, FALSE)
Hyper4(T, m, in, out) ==
  /\ Zero(T, m.W, <<out, 3 * out>>) /\ Zero(T, m.U, <<out, in>>) /\ Zero(T, m.V, <<out, out>>) /\ Zero(T, m.B, Vec(out))
Hyper3(T, m, out) == Zero(T, m.W, <<out, out>>) /\ Zero(T, m.U, <<out, out>>) /\ Zero(T, m.B, Vec(out))

SelfOf(T, m, in, qs, ks, vs, scale, causal, cross) ==
  /\ m.kind = "selfattention.Model"
  /\ m.InputSize = in /\ m.QuerySize = qs /\ m.KeySize = ks /\ m.ValueSize = vs
  /\ m.UseCausalMask = causal /\ m.IsCrossAttention = cross
  /\ LinearOf(T, m.Query, in, qs) /\ LinearOf(T, m.Key, in, ks) /\ LinearOf(T, m.Value, in, vs)
  /\ Setting(T, m.ScaleFactor, scale)

\* what cannot be built
Possible(a) ==
  a.kind \in {"conv1d", "conv2d"} => (a.masked => Len(a.mask) = a.in) /\ (a.dw => a.in = a.out)

Built(T, m, a) ==
  CASE a.kind = "linear" -> LinearOf(T, m, a.in, a.out)
    [] a.kind = "highway" ->
         /\ m.kind = "highway.Model" /\ m.Activation = a.act
         /\ Zero(T, m.WIn, <<a.in, a.in>>) /\ Zero(T, m.BIn, Vec(a.in)) /\ Zero(T, m.WT, <<a.in, a.in>>) /\ Zero(T, m.BT, Vec(a.in))
    [] a.kind = "sqrdist" -> m.kind = "sqrdist.Model" /\ Zero(T, m.B, <<a.out, a.in>>)
    [] a.kind = "flatten" -> m.kind = "flatten.Model" /\ T = <<>>
    [] a.kind = "activation" -> ActOf(m, a.act) /\ T = <<>>
    [] a.kind = "dropout" -> m.kind = "dropout.Model" /\ REq(m.P, a.p) /\ T = <<>>
    [] a.kind = "mixer" ->
         /\ m.kind = "mlpmixer.MixerBlock"
         /\ m.InputSize = a.in /\ m.HiddenSizeTokenMixer = a.token /\ m.HiddenSizeChannelMixer = a.channel /\ m.Channels = a.channels
         /\ m.ActFunctionTokenMixer = a.act1 /\ m.ActFunctionChannelMixer = a.act2
         /\ NormOf(T, m.TokenLayerNorm, a.in, a.eps) /\ NormOf(T, m.ChannelLayerNorm, a.in, a.eps)
         /\ FeedOf(T, m.TokenMixerFF, a.channels, a.token, a.act1)
         /\ FeedOf(T, m.ChannelMixerFF, a.in, a.channel, a.act2)
    [] a.kind = "gmlp" ->
         /\ m.kind = "gmlp.Model" /\ m.Config.Dim = a.dim /\ m.Config.SeqLen = a.seq
         /\ Len(m.Layers) = a.depth /\ \A k \in 1..a.depth : GmlpPart(T, m.Layers[k], a)
    [] a.kind = "gmlp part" -> GmlpPart(T, m, a)
    [] a.kind = "sgu" -> SguOf(T, m, a.dim, a.seq, a.act, a.eps) /\ REq(m.Config.InitEps, a.init)
    [] a.kind = "conv1x1" -> Conv1x1Of(T, m, a.in, a.out)
    [] a.kind = "conv1d" -> m.kind = "convolution1d.Model" /\ ConvOf(T, m, a)
    [] a.kind = "conv2d" -> m.kind = "convolution2d.Model" /\ m.Config.XStride = a.sx /\ ConvOf(T, m, a)
    [] a.kind = "pooling" -> m.kind = "pooling.MaxPooling" /\ m.Rows = a.rows /\ m.Columns = a.cols
    [] a.kind = "layernorm" -> NormOf(T, m, a.n, a.eps)
    [] a.kind \in {"fixnorm", "layernormsimple"} -> m.kind = a.kind \o ".Model" /\ T = <<>>
    [] a.kind = "adanorm" -> m.kind = "adanorm.Model" /\ Setting(T, m.Scale, a.scale)
    [] a.kind = "rmsnorm" -> m.kind = "rmsnorm.Model" /\ Zero(T, m.W, Vec(a.n)) /\ Zero(T, m.B, Vec(a.n))
    [] a.kind = "scalenorm" -> m.kind = "scalenorm.Model" /\ Zero(T, m.Gain, Vec(a.n))
    [] a.kind = "batchnorm" ->
         /\ m.kind = "batchnorm.Model"
         /\ ParamOf(T, m.W, Vec(a.n)) /\ T[m.W].rg /\ Zero(T, m.B, Vec(a.n))
         /\ Fresh(T, m.Mean, Vec(a.n), FALSE) /\ Fresh(T, m.StdDev, Vec(a.n), FALSE)
         /\ Setting(T, m.Momentum, a.mom)
    [] a.kind \in {"srn", "gru"} -> RnnOf(T, m, a.kind, a.in, a.out)
    [] a.kind = "lstm" -> LstmOf(T, m, a.in, a.out, a.refined)
    [] a.kind = "slstm" ->
         /\ m.kind = "slstm.Model" /\ m.Config.InputSize = a.in /\ m.Config.OutputSize = a.out /\ m.Config.Steps = a.steps
         /\ \A g \in {m.InputGate, m.LeftCellGate, m.RightCellGate, m.CellGate, m.SentCellGate, m.OutputGate, m.InputActivation} :
              Hyper4(T, g, a.in, a.out)
         /\ \A g \in {m.NonLocalSentCellGate, m.NonLocalInputGate, m.NonLocalSentOutputGate} : Hyper3(T, g, a.out)
         /\ \A p \in {m.StartH, m.EndH, m.InitValue} : Zero(T, p, Vec(a.out))
    [] a.kind = "birnn" ->
         /\ m.kind = "birnn.Model" /\ m.MergeMode = a.merge
         /\ RnnOf(T, m.Positive, a.p, a.in, a.out) /\ RnnOf(T, m.Negative, a.q, a.in, a.out)
    [] a.kind = "self" -> SelfOf(T, m, a.in, a.qs, a.ks, a.vs, a.scale, a.causal, a.cross)
    [] a.kind = "multi" ->
         LET dk == a.size \div a.heads
         IN  /\ m.kind = "multiheadattention.Model" /\ Len(m.Heads) = a.heads
             /\ \A h \in 1..a.heads :
                  SelfOf(T, m.Heads[h], a.size, dk, dk, dk, R1 \oslash RSqrt(R(dk)), a.causal, a.cross)
             /\ LinearOf(T, m.OutputMerge, a.size, a.size)
    [] a.kind = "crf" -> m.kind = "crf.Model" /\ m.Size = a.n /\ Zero(T, m.TransitionScores, <<a.n + 1, a.n + 1>>)
    [] a.kind = "param" ->   \* a parameter has a copy of the value it is made from, which was then changed
         /\ a.kept /\ Len(T) = 1 /\ m.Params = <<1>>
         /\ T[1].sh = a.sh /\ T[1].rg = a.on /\ \A k \in 1..Len(a.v) : RClose(T[1].v[k], a.v[k], RLit("1e-6"))
    [] a.kind = "embedding" ->
         /\ m.kind = "embedding.Model" /\ m.Size = a.n /\ m.Dim = a.dim /\ Len(m.Weights) = a.n
         /\ \A k \in 1..a.n : Zero(T, m.Weights[k], Vec(a.dim))

(* no two parameters of a new model are one, nor do they share memory: the *)
(* k-th tensor was increased by k, one after the other                     *)
Apart(e) == Len(e.t) = e.adds
OwnMemory(e) ==
  \A k \in 1..Len(e.t) :
    /\ e.after[k].sh = e.t[k].sh
    /\ \A j \in 1..Len(e.t[k].v) : RClose(e.after[k].v[j], e.t[k].v[j] \oplus R(k), RLit("1e-6"))
Typed(e) == \A k \in 1..Len(e.dts) : e.dts[k] = e.dt

NewProblems(e) ==
  IF ~Possible(e.a)
  THEN IF e.outcome \notin {"ok", "stuck", "deadlock"} THEN <<>> ELSE <<"an impossible configuration was accepted", e.outcome>>
  ELSE IF e.outcome # "ok" THEN <<"outcome " \o e.outcome>>
  ELSE (IF Built(e.t, e.m, e.a) THEN <<>> ELSE <<"not the model that was asked for">>)
       \o (IF Apart(e) THEN <<>> ELSE <<"two parameters of a new model are one">>)
       \o (IF OwnMemory(e) THEN <<>> ELSE <<"two parameters of a new model share memory">>)
       \o (IF Typed(e) THEN <<>> ELSE <<"type of the elements">>)

(* activations are found by their name, or by that in lower case;           *)
(* the number of an activation is its place here                           *)
ActNames == <<"Identity", "Tan", "Tanh", "Sigmoid", "HardSigmoid", "HardTanh", "Softsign", "ReLU", "CELU", "GELU", "ELU",
  "PositiveELU", "SwishB", "Swish", "SiLU", "Mish", "LeakyReLU", "SELU", "SoftPlus", "SoftShrink", "Threshold", "Softmax",
  "LogSoftmax", "SparseMax">>
LowNames == <<"identity", "tan", "tanh", "sigmoid", "hardsigmoid", "hardtanh", "softsign", "relu", "celu", "gelu", "elu",
  "positiveelu", "swishb", "swish", "silu", "mish", "leakyrelu", "selu", "softplus", "softshrink", "threshold", "softmax",
  "logsoftmax", "sparsemax">>
Named(s) == {n \in 1..Len(ActNames) : ActNames[n] = s \/ LowNames[n] = s}
NameProblems(e) ==
  IF e.outcome # "ok" THEN <<"outcome " \o e.outcome>>
  ELSE IF Named(e.s) = {}
  THEN IF e.err /\ e.must = -1 THEN <<>> ELSE <<"an activation of an unknown name">>
  ELSE IF ~e.err /\ e.got + 1 \in Named(e.s) /\ e.must = e.got THEN <<>> ELSE <<"the activation of a name">>
=============================================================================
