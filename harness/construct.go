package main

import (
	"math/rand"
	"strings"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/birnn"
	"github.com/nlpodyssey/spago/nn/convolution/conv1x1"
	"github.com/nlpodyssey/spago/nn/convolution/convolution1d"
	"github.com/nlpodyssey/spago/nn/convolution/convolution2d"
	"github.com/nlpodyssey/spago/nn/crf"
	"github.com/nlpodyssey/spago/nn/dropout"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/flatten"
	"github.com/nlpodyssey/spago/nn/gmlp"
	"github.com/nlpodyssey/spago/nn/gnn/slstm"
	"github.com/nlpodyssey/spago/nn/highway"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/mlpmixer"
	"github.com/nlpodyssey/spago/nn/normalization/adanorm"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
	"github.com/nlpodyssey/spago/nn/normalization/fixnorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernormsimple"
	"github.com/nlpodyssey/spago/nn/normalization/rmsnorm"
	"github.com/nlpodyssey/spago/nn/normalization/scalenorm"
	"github.com/nlpodyssey/spago/nn/pooling"
	"github.com/nlpodyssey/spago/nn/recurrent/gru"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/recurrent/srn"
	"github.com/nlpodyssey/spago/nn/sgu"
	"github.com/nlpodyssey/spago/nn/sqrdist"
)

// newDef makes a new model: the description of what is asked for, and how.
type newDef struct {
	prop string
	gen  func(g *lgen) (M, func() nn.Model)
}

// model2 hides that a constructor depends on the type of elements.
func model2[A, B nn.Model](dt string, a func() A, b func() B) func() nn.Model {
	if dt == "f32" {
		return func() nn.Model { return a() }
	}
	return func() nn.Model { return b() }
}

func some(g *lgen) int { return 1 + g.r.Intn(6) }

func (g *lgen) val(v float64) F { return F(round(g.dt, []float64{v})[0]) }

var rnnKinds = []string{"srn", "gru", "lstm"}

func (g *lgen) newRnnOf(kind string, in, out int) func() nn.Model {
	switch kind {
	case "srn":
		return model2(g.dt, func() *srn.Model { return srn.New[float32](in, out) }, func() *srn.Model { return srn.New[float64](in, out) })
	case "gru":
		return model2(g.dt, func() *gru.Model { return gru.New[float32](in, out) }, func() *gru.Model { return gru.New[float64](in, out) })
	}
	return model2(g.dt, func() *lstm.Model { return lstm.New[float32](in, out) }, func() *lstm.Model { return lstm.New[float64](in, out) })
}

var newTable = []newDef{
	{"C24", func(g *lgen) (M, func() nn.Model) {
		in, out := some(g), some(g)
		return M{"kind": "linear", "in": in, "out": out}, model2(g.dt, func() *linear.Model { return linear.New[float32](in, out) }, func() *linear.Model { return linear.New[float64](in, out) })
	}},
	{"C24", func(g *lgen) (M, func() nn.Model) {
		n, a := some(g), g.act()
		return M{"kind": "highway", "in": n, "act": actName[a]}, model2(g.dt, func() *highway.Model { return highway.New[float32](n, a) }, func() *highway.Model { return highway.New[float64](n, a) })
	}},
	{"C24", func(g *lgen) (M, func() nn.Model) {
		in, out := some(g), some(g)
		return M{"kind": "sqrdist", "in": in, "out": out}, model2(g.dt, func() *sqrdist.Model { return sqrdist.New[float32](in, out) }, func() *sqrdist.Model { return sqrdist.New[float64](in, out) })
	}},
	{"C24", func(g *lgen) (M, func() nn.Model) {
		p := g.r.Float64()
		switch g.r.Intn(3) {
		case 0:
			return M{"kind": "flatten"}, func() nn.Model { return flatten.New() }
		case 1:
			a := g.act()
			return M{"kind": "activation", "act": actName[a]}, func() nn.Model { return activation.New(a) }
		}
		return M{"kind": "dropout", "p": F(p)}, func() nn.Model { return dropout.New(p) }
	}},
	{"C24", func(g *lgen) (M, func() nn.Model) {
		c := mlpmixer.Config{InputSize: some(g), HiddenSizeTokenMixer: some(g), HiddenSizeChannelMixer: some(g), Channels: some(g),
			ActFunctionTokenMixer: g.act(), ActFunctionChannelMixer: g.act(), Eps: []float64{1e-12, 1e-5, 0.1}[g.r.Intn(3)]}
		return M{"kind": "mixer", "in": c.InputSize, "token": c.HiddenSizeTokenMixer, "channel": c.HiddenSizeChannelMixer, "channels": c.Channels,
				"act1": actName[c.ActFunctionTokenMixer], "act2": actName[c.ActFunctionChannelMixer], "eps": g.val(c.Eps)},
			model2(g.dt, func() *mlpmixer.MixerBlock { return mlpmixer.New[float32](c) }, func() *mlpmixer.MixerBlock { return mlpmixer.New[float64](c) })
	}},
	{"C24", func(g *lgen) (M, func() nn.Model) {
		c := gmlp.Config{Dim: 1 + g.r.Intn(4), Depth: g.r.Intn(4), SeqLen: some(g), FFMult: 2 * (1 + g.r.Intn(2)), Activation: g.act()}
		a := M{"kind": "gmlp", "dim": c.Dim, "depth": c.Depth, "seq": c.SeqLen, "ff": c.Dim * c.FFMult, "act": actName[c.Activation], "eps": g.val(1e-12)}
		if g.r.Intn(2) == 0 {
			return a, model2(g.dt, func() *gmlp.Model { return gmlp.New[float32](c) }, func() *gmlp.Model { return gmlp.New[float64](c) })
		}
		a["kind"] = "gmlp part"
		b := gmlp.BlockConfig{Dim: c.Dim, DimFF: c.Dim * c.FFMult, SeqLen: c.SeqLen, Activation: c.Activation}
		return a, func() nn.Model {
			if g.dt == "f32" {
				return gmlp.NewResidual(gmlp.NewPreNorm[float32](b.Dim, gmlp.NewBlock[float32](b)))
			}
			return gmlp.NewResidual(gmlp.NewPreNorm[float64](b.Dim, gmlp.NewBlock[float64](b)))
		}
	}},
	{"C24", func(g *lgen) (M, func() nn.Model) {
		c := sgu.Config{Dim: 2 * some(g), DimSeq: some(g), InitEps: g.r.Float64(), Activation: g.act()}
		return M{"kind": "sgu", "dim": c.Dim, "seq": c.DimSeq, "act": actName[c.Activation], "init": F(c.InitEps), "eps": g.val(1e-12)},
			model2(g.dt, func() *sgu.Model { return sgu.New[float32](c) }, func() *sgu.Model { return sgu.New[float64](c) })
	}},

	{"C23", func(g *lgen) (M, func() nn.Model) {
		c := conv1x1.Config{InputChannels: some(g), OutputChannels: some(g)}
		return M{"kind": "conv1x1", "in": c.InputChannels, "out": c.OutputChannels},
			model2(g.dt, func() *conv1x1.Model { return conv1x1.New[float32](c) }, func() *conv1x1.Model { return conv1x1.New[float64](c) })
	}},
	{"C23", func(g *lgen) (M, func() nn.Model) {
		c := convolution1d.Config{KernelSizeX: some(g), KernelSizeY: some(g), YStride: some(g), InputChannels: g.r.Intn(5), OutputChannels: g.r.Intn(5), DepthWise: g.r.Intn(3) == 0, Activation: g.act()}
		c.Mask = g.anyMask(c.InputChannels)
		if c.DepthWise && g.r.Intn(4) > 0 {
			c.OutputChannels = c.InputChannels
		}
		return M{"kind": "conv1d", "kx": c.KernelSizeX, "ky": c.KernelSizeY, "sy": c.YStride, "in": c.InputChannels, "out": c.OutputChannels, "dw": c.DepthWise, "act": actName[c.Activation],
				"masked": c.Mask != nil, "mask": append([]int{}, c.Mask...)},
			model2(g.dt, func() *convolution1d.Model { return convolution1d.New[float32](c) }, func() *convolution1d.Model { return convolution1d.New[float64](c) })
	}},
	{"C23", func(g *lgen) (M, func() nn.Model) {
		c := convolution2d.Config{KernelSizeX: some(g), KernelSizeY: some(g), XStride: some(g), YStride: some(g), InputChannels: g.r.Intn(5), OutputChannels: g.r.Intn(5), DepthWise: g.r.Intn(3) == 0, Activation: g.act()}
		c.Mask = g.anyMask(c.InputChannels)
		if c.DepthWise && g.r.Intn(4) > 0 {
			c.OutputChannels = c.InputChannels
		}
		return M{"kind": "conv2d", "kx": c.KernelSizeX, "ky": c.KernelSizeY, "sx": c.XStride, "sy": c.YStride, "in": c.InputChannels, "out": c.OutputChannels, "dw": c.DepthWise, "act": actName[c.Activation],
				"masked": c.Mask != nil, "mask": append([]int{}, c.Mask...)},
			model2(g.dt, func() *convolution2d.Model { return convolution2d.New[float32](c) }, func() *convolution2d.Model { return convolution2d.New[float64](c) })
	}},
	{"C23", func(g *lgen) (M, func() nn.Model) {
		r, c := some(g), some(g)
		return M{"kind": "pooling", "rows": r, "cols": c}, func() nn.Model { return pooling.NewMax(r, c) }
	}},

	{"C21", func(g *lgen) (M, func() nn.Model) {
		n, eps := some(g), tenth(g.gen, 1, 20)
		return M{"kind": "layernorm", "n": n, "eps": g.val(eps)},
			model2(g.dt, func() *layernorm.Model { return layernorm.New[float32](n, eps) }, func() *layernorm.Model { return layernorm.New[float64](n, eps) })
	}},
	{"C21", func(g *lgen) (M, func() nn.Model) {
		s := tenth(g.gen, 1, 20)
		switch g.r.Intn(4) {
		case 0:
			return M{"kind": "fixnorm"}, func() nn.Model { return fixnorm.New() }
		case 1:
			return M{"kind": "layernormsimple"}, func() nn.Model { return layernormsimple.New() }
		}
		return M{"kind": "adanorm", "scale": g.val(s)}, model2(g.dt, func() *adanorm.Model { return adanorm.New[float32](s) }, func() *adanorm.Model { return adanorm.New[float64](s) })
	}},
	{"C21", func(g *lgen) (M, func() nn.Model) {
		n := some(g)
		if g.r.Intn(2) == 0 {
			return M{"kind": "rmsnorm", "n": n}, model2(g.dt, func() *rmsnorm.Model { return rmsnorm.New[float32](n) }, func() *rmsnorm.Model { return rmsnorm.New[float64](n) })
		}
		return M{"kind": "scalenorm", "n": n}, model2(g.dt, func() *scalenorm.Model { return scalenorm.New[float32](n) }, func() *scalenorm.Model { return scalenorm.New[float64](n) })
	}},
	{"C21", func(g *lgen) (M, func() nn.Model) {
		n, mom := some(g), float64(g.r.Intn(11))/10
		if g.r.Intn(3) == 0 {
			return M{"kind": "batchnorm", "n": n, "mom": g.val(0.9)}, model2(g.dt, func() *batchnorm.Model { return batchnorm.New[float32](n) }, func() *batchnorm.Model { return batchnorm.New[float64](n) })
		}
		return M{"kind": "batchnorm", "n": n, "mom": g.val(mom)},
			model2(g.dt, func() *batchnorm.Model { return batchnorm.NewWithMomentum[float32](n, float32(mom)) }, func() *batchnorm.Model { return batchnorm.NewWithMomentum[float64](n, mom) })
	}},

	{"C19", func(g *lgen) (M, func() nn.Model) {
		in, out, k := some(g), some(g), rnnKinds[g.r.Intn(3)]
		return M{"kind": k, "in": in, "out": out, "refined": false}, g.newRnnOf(k, in, out)
	}},
	{"C19", func(g *lgen) (M, func() nn.Model) {
		in, out := some(g), some(g)
		on := g.r.Intn(2) == 0
		mk := g.newRnnOf("lstm", in, out)
		return M{"kind": "lstm", "in": in, "out": out, "refined": on}, func() nn.Model { return mk().(*lstm.Model).WithRefinedGates(!on).WithRefinedGates(on) }
	}},
	{"C19", func(g *lgen) (M, func() nn.Model) {
		c := slstm.Config{InputSize: some(g), OutputSize: some(g), Steps: some(g)}
		return M{"kind": "slstm", "in": c.InputSize, "out": c.OutputSize, "steps": c.Steps},
			model2(g.dt, func() *slstm.Model { return slstm.New[float32](c) }, func() *slstm.Model { return slstm.New[float64](c) })
	}},
	{"C19", func(g *lgen) (M, func() nn.Model) {
		in, out := some(g), some(g)
		merge := []birnn.MergeType{birnn.Concat, birnn.Sum, birnn.Prod, birnn.Avg}[g.r.Intn(4)]
		a := M{"kind": "birnn", "in": in, "out": out, "merge": mergeName[merge], "p": "lstm", "q": "lstm", "refined": false}
		switch g.r.Intn(4) {
		case 0:
			return a, model2(g.dt, func() *birnn.Model { return birnn.NewBiLSTM[float32](in, out, merge) }, func() *birnn.Model { return birnn.NewBiLSTM[float64](in, out, merge) })
		case 1:
			a["p"], a["q"] = "gru", "gru"
			return a, model2(g.dt, func() *birnn.Model { return birnn.NewBiGRU[float32](in, out, merge) }, func() *birnn.Model { return birnn.NewBiGRU[float64](in, out, merge) })
		case 2:
			k := g.r.Intn(2)
			if k == 0 {
				a["merge"] = "Concat"
			} else {
				a["in"] = 2 * out
			}
			return a, func() nn.Model {
				return pickT(g.dt, birnn.NewBiBiLSTM[float32], birnn.NewBiBiLSTM[float64])(in, out, merge)[k]
			}
		}
		p, q := rnnKinds[g.r.Intn(3)], rnnKinds[g.r.Intn(3)]
		a["p"], a["q"] = p, q
		mp, mq := g.newRnnOf(p, in, out), g.newRnnOf(q, in, out)
		return a, func() nn.Model { return birnn.New(mp().(nn.StandardModel), mq().(nn.StandardModel), merge) }
	}},

	{"C20", func(g *lgen) (M, func() nn.Model) {
		c := selfattention.Config{InputSize: some(g), QuerySize: some(g), KeySize: some(g), ValueSize: some(g), ScaleFactor: tenth(g.gen, 1, 20), UseCausalMask: g.r.Intn(2) == 0, IsCrossAttention: g.r.Intn(2) == 0}
		return M{"kind": "self", "in": c.InputSize, "qs": c.QuerySize, "ks": c.KeySize, "vs": c.ValueSize, "scale": g.val(c.ScaleFactor), "causal": c.UseCausalMask, "cross": c.IsCrossAttention},
			model2(g.dt, func() *selfattention.Model { return selfattention.New[float32](c) }, func() *selfattention.Model { return selfattention.New[float64](c) })
	}},
	{"C20", func(g *lgen) (M, func() nn.Model) {
		h, d := some(g), some(g)
		causal, cross := g.r.Intn(2) == 0, g.r.Intn(2) == 0
		return M{"kind": "multi", "size": h * d, "heads": h, "causal": causal, "cross": cross},
			model2(g.dt, func() *multiheadattention.Model { return multiheadattention.New[float32](h*d, h, causal, cross) },
				func() *multiheadattention.Model { return multiheadattention.New[float64](h*d, h, causal, cross) })
	}},

	{"C22", func(g *lgen) (M, func() nn.Model) {
		n := some(g)
		return M{"kind": "crf", "n": n}, model2(g.dt, func() *crf.Model { return crf.New[float32](n) }, func() *crf.Model { return crf.New[float64](n) })
	}},
	{"C18", func(g *lgen) (M, func() nn.Model) {
		sh := []int{some(g), some(g)}
		v := g.uni(sh[0] * sh[1])
		was, on := g.r.Intn(2) == 0, g.r.Intn(3) > 0
		src := newMat(g.dt, sh, v, was)
		a := M{"kind": "param", "sh": sh, "v": Fs(v), "on": on, "kept": false}
		return a, func() nn.Model {
			p := nn.NewParam(src)
			if !on {
				p.WithGrad(false)
			} else if g.r.Intn(2) == 0 {
				p.WithGrad(false).WithGrad(true)
			}
			a["kept"] = src.RequiresGrad() == was
			src.AddScalarInPlace(100)
			return activation.New(activation.SELU, p)
		}
	}},
	{"C18", func(g *lgen) (M, func() nn.Model) {
		n, d := g.r.Intn(6), some(g)
		return M{"kind": "embedding", "n": n, "dim": d}, model2(g.dt, func() *embedding.Model { return embedding.New[float32](n, d) }, func() *embedding.Model { return embedding.New[float64](n, d) })
	}},
}

// anyMask is a mask of channels, now and then of another number of them.
func (g *lgen) anyMask(n int) []int {
	if g.r.Intn(2) == 0 || n == 0 {
		return nil
	}
	if g.r.Intn(6) == 0 {
		n += 1 - 2*g.r.Intn(2)
	}
	m := make([]int, n)
	for i := range m {
		m[i] = g.r.Intn(2)
	}
	return m
}

// runNew records a new model: its structure, its tensors, and the tensors again after the k-th of them has been increased by k.
func runNew(c *Ctx, g *lgen, d newDef) {
	a, mk := d.gen(g)
	rec := M{"mode": "new", "key": "new/" + a["kind"].(string), "a": a, "dt": g.dt, "m": M{"kind": "nil"}, "t": []M{}, "after": []Mx{}, "dts": []string{}, "adds": 0}
	c.Begin(rec)
	rec["outcome"] = guarded(func() {
		m := mk()
		rec["m"] = g.b.model(m)
		rec["t"] = g.b.recs()
		rec["adds"] = g.b.adds
		dts := []string{}
		for k, t := range g.b.ts {
			dts = append(dts, matDT(t.Value()))
			t.Value().(mat.Matrix).AddScalarInPlace(float64(k + 1))
		}
		after := []Mx{}
		for _, t := range g.b.ts {
			after = append(after, snap(t.Value()))
		}
		rec["after"], rec["dts"] = after, dts
	})
	c.Emit(rec)
}

// runName looks up an activation by its name, or by something close to it.
func runName(c *Ctx, r *rand.Rand) {
	s := actName[activation.Activation(r.Intn(len(actName)))]
	switch r.Intn(5) {
	case 0, 1:
		s = strings.ToLower(s)
	case 2:
		b := []byte(s)
		switch k := r.Intn(len(b)); r.Intn(4) {
		case 0:
			b[k] ^= 32 // the case of one letter
		case 1:
			b = append(b[:k], b[k+1:]...)
		case 2:
			b = append(b, ' ')
		default:
			b[k] = byte('a' + r.Intn(26))
		}
		s = string(b)
	}
	rec := M{"mode": "name", "key": "activation-name", "s": s, "err": false, "got": -1, "must": -1}
	c.Begin(rec)
	rec["outcome"] = guarded(func() {
		a, err := activation.ParseActivation(s)
		rec["err"], rec["got"] = err != nil, int(a)
		func() {
			defer func() { recover() }()
			rec["must"] = int(activation.MustParseActivation(s))
		}()
	})
	c.Emit(rec)
}

func init() {
	commands["act-name"] = func(c *Ctx) { c.Cases(func(i int, r *rand.Rand) { runName(c, r) }) }
	for _, p := range []string{"C18", "C19", "C20", "C21", "C22", "C23", "C24"} {
		var ds []newDef
		for _, d := range newTable {
			if d.prop == p {
				ds = append(ds, d)
			}
		}
		commands["new-"+p] = func(c *Ctx) {
			c.Cases(func(i int, r *rand.Rand) { runNew(c, newLgen(r), ds[(i/c.Of)%len(ds)]) })
		}
	}
}
