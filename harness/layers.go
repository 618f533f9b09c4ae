package main

import (
	"encoding/gob"
	"fmt"
	"math"
	"math/rand"
	"path"
	"reflect"
	"sort"
	"strings"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/losses"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/attention"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/birnn"
	"github.com/nlpodyssey/spago/nn/convolution/conv1x1"
	"github.com/nlpodyssey/spago/nn/convolution/convolution1d"
	"github.com/nlpodyssey/spago/nn/convolution/convolution2d"
	"github.com/nlpodyssey/spago/nn/crf"
	"github.com/nlpodyssey/spago/nn/dropout"
	"github.com/nlpodyssey/spago/nn/flatten"
	"github.com/nlpodyssey/spago/nn/gmlp"
	"github.com/nlpodyssey/spago/nn/gnn/slstm"
	"github.com/nlpodyssey/spago/nn/highway"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/mlpmixer"
	"github.com/nlpodyssey/spago/nn/normalization/adanorm"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
	"github.com/nlpodyssey/spago/nn/normalization/fixnorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernormsimple"
	"github.com/nlpodyssey/spago/nn/normalization/rmsnorm"
	"github.com/nlpodyssey/spago/nn/normalization/scalenorm"
	"github.com/nlpodyssey/spago/nn/pooling"
	"github.com/nlpodyssey/spago/nn/recurrent/gru"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/recurrent/srn"
	"github.com/nlpodyssey/spago/nn/sgu"
	"github.com/nlpodyssey/spago/nn/sqrdist"
)

// Stack is a user-defined sequence of layers.
type Stack struct {
	nn.Module
	Layers nn.ModuleList[nn.StandardModel]
}

func (m *Stack) Forward(xs ...mat.Tensor) []mat.Tensor { return m.Layers.Forward(xs...) }

func init() { gob.Register(&Stack{}) }

var actName = map[activation.Activation]string{
	activation.Identity: "Identity", activation.Tan: "Tan", activation.Tanh: "Tanh", activation.Sigmoid: "Sigmoid",
	activation.HardSigmoid: "HardSigmoid", activation.HardTanh: "HardTanh", activation.Softsign: "Softsign",
	activation.ReLU: "ReLU", activation.CELU: "CELU", activation.GELU: "GELU", activation.ELU: "ELU",
	activation.PositiveELU: "PositiveELU", activation.SwishB: "SwishB", activation.Swish: "Swish", activation.SiLU: "SiLU",
	activation.Mish: "Mish", activation.LeakyReLU: "LeakyReLU", activation.SELU: "SELU", activation.SoftPlus: "SoftPlus",
	activation.SoftShrink: "SoftShrink", activation.Threshold: "Threshold", activation.Softmax: "Softmax",
	activation.LogSoftmax: "LogSoftmax", activation.SparseMax: "SparseMax",
}

var mergeName = map[birnn.MergeType]string{birnn.Concat: "Concat", birnn.Sum: "Sum", birnn.Prod: "Prod", birnn.Avg: "Avg"}

// bench holds the tensors of a case and numbers them.
type bench struct {
	ts   []mat.Tensor
	pos  map[mat.Tensor]int
	adds int // how many times a tensor was met
}

func newBench() *bench { return &bench{pos: map[mat.Tensor]int{}} }

func (b *bench) add(t mat.Tensor) int {
	b.adds++
	if i, ok := b.pos[t]; ok {
		return i
	}
	b.ts = append(b.ts, t)
	b.pos[t] = len(b.ts)
	return len(b.ts)
}

func (b *bench) addAll(ts []mat.Tensor) []int {
	out := make([]int, len(ts))
	for i, t := range ts {
		out[i] = b.add(t)
	}
	return out
}

func (b *bench) recs() []M {
	out := make([]M, len(b.ts))
	for i, t := range b.ts {
		s := snap(t.Value())
		out[i] = M{"sh": s.Sh, "v": s.V, "rg": t.RequiresGrad()}
	}
	return out
}

var tensorType = reflect.TypeOf((*mat.Tensor)(nil)).Elem()
var modelType = reflect.TypeOf((*nn.Model)(nil)).Elem()

// export describes a model: its settings, sub-models, and the numbers of its tensors.
func (b *bench) export(v reflect.Value) any {
	if !v.IsValid() {
		return M{"kind": "nil"}
	}
	switch x := v.Interface().(type) {
	case activation.Activation:
		return actName[x]
	case birnn.MergeType:
		return mergeName[x]
	case *nn.Param:
		if x == nil {
			return 0
		}
		return b.add(x)
	case *nn.Buffer:
		if x == nil {
			return 0
		}
		return b.add(x)
	}
	switch v.Kind() {
	case reflect.Interface:
		return b.export(v.Elem())
	case reflect.Pointer:
		if v.IsNil() {
			return M{"kind": "nil"}
		}
		return b.export(v.Elem())
	case reflect.Slice:
		out := []any{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, b.export(v.Index(i)))
		}
		return out
	case reflect.Struct:
		m := M{"kind": path.Base(v.Type().PkgPath()) + "." + v.Type().Name()}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if !f.IsExported() || f.Name == "Module" {
				continue
			}
			e := b.export(v.Field(i))
			if f.Anonymous {
				for k, y := range e.(M) {
					if k != "kind" {
						m[k] = y
					}
				}
				continue
			}
			m[f.Name] = e
		}
		return m
	case reflect.Int, reflect.Int64:
		return int(v.Int())
	case reflect.Float64, reflect.Float32:
		return F(v.Float())
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return v.String()
	}
	return fmt.Sprint(v.Interface())
}

func (b *bench) model(m nn.Model) any { return b.export(reflect.ValueOf(m)) }

// lgen makes layers and inputs.
type lgen struct {
	*gen
	smooth bool // avoid activations with kinks
	b      *bench
	train  bool
	noGrad float64 // share of the parameters without gradient
	far    float64 // what is added to the elements of the inputs
	spicy  int     // special values: 0 none, 1 zero elements of inputs and special parameters, 2 any, 3 inputs of zeros
}

// spice makes a case use special values: any, unless the layer has points
// near them where it is not smooth.
func (g *lgen) spice(any bool) {
	if g.r.Intn(4) > 0 {
		return
	}
	g.spicy, g.smooth = 1, true
	if any {
		g.spicy = 2
	}
}

func special(r *rand.Rand, v []float64) {
	if len(v) == 0 {
		return
	}
	switch r.Intn(4) {
	case 0: // all elements are the same
		k := []float64{0, 0, 0, 1, -1, v[0]}[r.Intn(6)]
		for j := range v {
			v[j] = k
		}
	case 1: // some are special
		for j := range v {
			if r.Intn(2) == 0 {
				v[j] = []float64{0, 0, 1, -1, 2, 0.5}[r.Intn(6)]
			}
		}
	case 2: // a single one is not zero
		j := r.Intn(len(v))
		for k := range v {
			if k != j {
				v[k] = 0
			}
		}
	}
}

var smoothActs = []activation.Activation{activation.Identity, activation.Tanh, activation.Sigmoid, activation.Softsign,
	activation.GELU, activation.SiLU, activation.Swish, activation.Mish}
var kinkActs = []activation.Activation{activation.HardSigmoid, activation.HardTanh, activation.ReLU, activation.PositiveELU}
var vecActs = []activation.Activation{activation.Softmax, activation.LogSoftmax, activation.SparseMax}
var parActs = []activation.Activation{activation.CELU, activation.ELU, activation.SwishB, activation.LeakyReLU,
	activation.SELU, activation.SoftPlus, activation.SoftShrink, activation.Threshold}

func (g *lgen) act() activation.Activation {
	if !g.smooth && g.r.Intn(3) == 0 {
		return g.byName(kinkActs[g.r.Intn(len(kinkActs))])
	}
	return g.byName(smoothActs[g.r.Intn(len(smoothActs))])
}

// byName asks for the activation by its name now and then, in the library's spelling or in lower case.
// What was asked for is recorded, whatever the library makes of it.
func (g *lgen) byName(a activation.Activation) activation.Activation {
	n := actName[a]
	switch g.r.Intn(8) {
	case 0:
		n = strings.ToLower(n)
		fallthrough
	case 1:
		if b := activation.MustParseActivation(n); b != a {
			panic("MustParseActivation(" + n + ") is another activation")
		}
	}
	return a
}

func (g *lgen) scalarParam(v float64) *nn.Param {
	return nn.NewParam(newMat(g.dt, []int{1, 1}, []float64{v}, false))
}

// fill gives all parameters and buffers values, and some parameters no gradient.
func (g *lgen) fill(m nn.Model) {
	freeze := g.r.Intn(3) == 0
	nn.ForEachParam(m, func(p *nn.Param) {
		n := p.Value().Size()
		v := g.uni(n)
		for i := range v {
			v[i] *= 0.6
		}
		if g.spicy > 0 && g.r.Intn(2) == 0 {
			special(g.r, v)
		}
		p.ReplaceValue(newMat(g.dt, p.Value().Shape(), v, p.RequiresGrad()))
		if freeze && g.r.Intn(3) == 0 {
			p.SetRequiresGrad(false)
		}
	})
}

// inputs returns n tensors of the shape; the leaves are known to the bench.
func (g *lgen) inputs(n int, sh []int) []mat.Tensor {
	xs := make([]mat.Tensor, n)
	for i := range xs {
		if i > 0 && g.r.Intn(12) == 0 {
			xs[i] = xs[g.r.Intn(i)]
			continue
		}
		v := g.any(size(sh))
		switch {
		case g.spicy == 2 && g.r.Intn(2) == 0:
			special(g.r, v)
		case g.spicy == 3 && g.r.Intn(2) == 0:
			v = make([]float64, len(v))
		case g.spicy == 1 && len(v) > 0 && g.r.Intn(2) == 0:
			v[g.r.Intn(len(v))] = 0
		}
		for j := range v {
			v[j] += g.far
		}
		leaf := newMat(g.dt, sh, round(g.dt, v), g.r.Intn(4) > 0)
		g.b.add(leaf)
		xs[i] = leaf
	}
	return xs
}

// batch returns n vectors that differ in every component.
func (g *lgen) batch(n, sz int) []mat.Tensor {
	xs := g.inputs(n, col(sz))
	a, b := xs[0].Value().Data().F64(), xs[n-1].Value().Data().F64()
	v := make([]float64, sz)
	near := false
	for i := range v {
		v[i] = a[i]
		if math.Abs(a[i]-b[i]) < 0.4 {
			near = true
			v[i] = b[i] + 0.75
		}
	}
	if near {
		leaf := newMat(g.dt, col(sz), round(g.dt, v), g.r.Intn(2) == 0)
		g.b.add(leaf)
		xs[0] = leaf
	}
	return xs
}

// hide makes some inputs results of operators; their numbers stay those of the leaves.
func (g *lgen) hide(xs []mat.Tensor) []mat.Tensor {
	out := append([]mat.Tensor{}, xs...)
	for i := range out {
		if g.r.Intn(3) == 0 {
			out[i] = wrapOp(xs[i], g.r.Intn(2) == 0)
		}
	}
	return out
}

func pickT[A any](dt string, a, b A) A {
	if dt == "f32" {
		return a
	}
	return b
}

func mk[A nn.Model](dt string, f32, f64 func() A) A {
	if dt == "f32" {
		return f32()
	}
	return f64()
}

type layerDef struct {
	name string
	prop string
	gen  func(g *lgen) (nn.StandardModel, int, []int) // model, number and shape of the inputs
}

func col(n int) []int { return []int{n, 1} }

func newLinear(g *lgen, in, out int) *linear.Model {
	l := pickT(g.dt, linear.New[float32], linear.New[float64])(in, out)
	if g.r.Intn(5) == 0 {
		l.WithBiasGrad(false)
	}
	return l
}

func newRnn(g *lgen, in, out int) nn.StandardModel {
	switch g.r.Intn(4) {
	case 0:
		return pickT(g.dt, srn.New[float32], srn.New[float64])(in, out)
	case 1:
		return pickT(g.dt, gru.New[float32], gru.New[float64])(in, out)
	case 2:
		return pickT(g.dt, lstm.New[float32], lstm.New[float64])(in, out)
	}
	if in != out {
		return pickT(g.dt, lstm.New[float32], lstm.New[float64])(in, out)
	}
	return pickT(g.dt, lstm.New[float32], lstm.New[float64])(in, out).WithRefinedGates(true)
}

func (g *lgen) seqLen() int {
	if g.long {
		return 8 + g.r.Intn(28)
	}
	if g.r.Intn(15) == 0 {
		return 6 + g.r.Intn(5)
	}
	return 1 + g.r.Intn(5)
}

// few is a small count, now and then a larger one.
func (g *lgen) few(n int) int {
	if g.long {
		return n + 1 + g.r.Intn(4*n)
	}
	if g.r.Intn(8) == 0 {
		return n + 1 + g.r.Intn(3)
	}
	return 1 + g.r.Intn(n)
}

var layerTable = []layerDef{
	{"linear", "C24", func(g *lgen) (nn.StandardModel, int, []int) {
		in := dim(g.gen)
		c := 1
		if g.r.Intn(4) == 0 {
			return newLinear(g, in, dim(g.gen)), g.seqLen(), []int{in, c}
		}
		return newLinear(g, in, dim(g.gen)+3), g.seqLen(), []int{in, c}
	}},
	{"activation", "C24", func(g *lgen) (nn.StandardModel, int, []int) {
		n := dim(g.gen) + 1
		switch g.r.Intn(4) {
		case 0:
			a := parActs[g.r.Intn(len(parActs))]
			switch a {
			case activation.SELU, activation.Threshold:
				return activation.New(g.byName(a), g.scalarParam(tenth(g.gen, 3, 20)), g.scalarParam(tenth(g.gen, 3, 20))), g.seqLen(), col(n)
			case activation.SoftPlus:
				return activation.New(a, g.scalarParam(tenth(g.gen, 3, 20)), g.scalarParam([]float64{20, 1.5, 2}[g.r.Intn(3)])), g.seqLen(), col(n)
			}
			return activation.New(a, g.scalarParam(tenth(g.gen, 3, 20))), g.seqLen(), col(n)
		case 1:
			return activation.New(g.byName(vecActs[g.r.Intn(len(vecActs))])), g.seqLen(), col(n)
		}
		return activation.New(g.act()), g.seqLen(), g.shape()
	}},
	{"highway", "C24", func(g *lgen) (nn.StandardModel, int, []int) {
		n := dim(g.gen)
		return pickT(g.dt, highway.New[float32], highway.New[float64])(n, g.act()), g.seqLen(), col(n)
	}},
	{"flatten", "C24", func(g *lgen) (nn.StandardModel, int, []int) { return flatten.New(), g.seqLen(), g.shape() }},
	{"dropout", "C24", func(g *lgen) (nn.StandardModel, int, []int) { return dropout.New(0), g.seqLen(), g.shape() }},
	{"sqrdist", "C24", func(g *lgen) (nn.StandardModel, int, []int) {
		n := dim(g.gen)
		return pickT(g.dt, sqrdist.New[float32], sqrdist.New[float64])(n, dim(g.gen)), g.seqLen(), col(n)
	}},
	{"mixer", "C24", func(g *lgen) (nn.StandardModel, int, []int) {
		n, ch := 2+g.r.Intn(3), g.few(3)
		if g.r.Intn(10) == 0 {
			n = 5 + g.r.Intn(6)
		}
		c := mlpmixer.Config{InputSize: n, HiddenSizeTokenMixer: dim(g.gen), HiddenSizeChannelMixer: dim(g.gen), Channels: ch,
			ActFunctionTokenMixer: g.act(), ActFunctionChannelMixer: g.act(), Eps: []float64{1e-12, 1e-5, 0.1}[g.r.Intn(3)]}
		return pickT(g.dt, mlpmixer.New[float32], mlpmixer.New[float64])(c), ch, col(n)
	}},
	{"gmlp", "C24", func(g *lgen) (nn.StandardModel, int, []int) {
		d, l := 2+g.r.Intn(2), g.few(3)
		c := gmlp.Config{Dim: d, Depth: 1 + g.r.Intn(2), SeqLen: l, FFMult: 2, Activation: g.act()}
		switch g.r.Intn(8) {
		case 0:
			c.Depth = 3 + g.r.Intn(2)
		case 1:
			c.FFMult = 4
		case 2:
			d = 4
			c.Dim, c.FFMult = d, []int{1, 3}[g.r.Intn(2)]
		}
		n := l
		if g.r.Intn(3) == 0 {
			n = 1 + g.r.Intn(l+1)
		}
		return pickT(g.dt, gmlp.New[float32], gmlp.New[float64])(c), n, col(d)
	}},
	{"sgu", "C24", func(g *lgen) (nn.StandardModel, int, []int) {
		d, l := 2*(1+g.r.Intn(3)), g.few(3)
		if d == 2 {
			d = 4
		}
		c := sgu.Config{Dim: d, DimSeq: l, InitEps: 1e-3, Activation: g.act()}
		return pickT(g.dt, sgu.New[float32], sgu.New[float64])(c), l, col(d)
	}},
	{"stack", "C24", func(g *lgen) (nn.StandardModel, int, []int) {
		n := dim(g.gen)
		s := &Stack{}
		d := n
		for i := 0; i < 1+g.r.Intn(4); i++ {
			switch g.r.Intn(4) {
			case 0:
				s.Layers = append(s.Layers, activation.New(g.act()))
			case 1:
				s.Layers = append(s.Layers, pickT(g.dt, highway.New[float32], highway.New[float64])(d, g.act()))
			case 2:
				s.Layers = append(s.Layers, dropout.New(0))
			default:
				o := dim(g.gen)
				s.Layers = append(s.Layers, newLinear(g, d, o))
				d = o
			}
		}
		if len(s.Layers) > 1 && g.r.Intn(3) == 0 { // the same layer twice
			if h, ok := s.Layers[len(s.Layers)-1].(*highway.Model); ok {
				s.Layers = append(s.Layers, h)
			}
		}
		return s, g.seqLen(), col(n)
	}},

	{"conv1x1", "C23", func(g *lgen) (nn.StandardModel, int, []int) {
		in := dim(g.gen)
		c := conv1x1.Config{InputChannels: in, OutputChannels: dim(g.gen)}
		return pickT(g.dt, conv1x1.New[float32], conv1x1.New[float64])(c), in, col(dim(g.gen))
	}},
	{"conv1d", "C23", func(g *lgen) (nn.StandardModel, int, []int) {
		r := g.r
		in, out := g.few(3), g.few(3)
		c := convolution1d.Config{KernelSizeX: 1 + r.Intn(3), KernelSizeY: 1 + r.Intn(3), YStride: 1 + r.Intn(3), InputChannels: in, OutputChannels: out, Activation: g.act()}
		c.DepthWise, c.OutputChannels, c.Mask = g.channels(in, out)
		rows, cols := c.KernelSizeX, c.KernelSizeY+c.YStride*r.Intn(4)
		if r.Intn(12) == 0 { // larger ones
			c.KernelSizeX, c.KernelSizeY, c.YStride = 1+r.Intn(5), 1+r.Intn(7), 1+r.Intn(5)
			rows, cols = c.KernelSizeX, c.KernelSizeY+c.YStride*r.Intn(12)
		}
		if r.Intn(4) == 0 {
			cols = 1 + r.Intn(6)
		}
		if r.Intn(8) == 0 {
			rows = 1 + r.Intn(4)
		}
		return pickT(g.dt, convolution1d.New[float32], convolution1d.New[float64])(c), in, []int{rows, cols}
	}},
	{"conv2d", "C23", func(g *lgen) (nn.StandardModel, int, []int) {
		r := g.r
		in, out := g.few(3), g.few(3)
		c := convolution2d.Config{KernelSizeX: 1 + r.Intn(3), KernelSizeY: 1 + r.Intn(3), XStride: 1 + r.Intn(2), YStride: 1 + r.Intn(3), InputChannels: in, OutputChannels: out, Activation: g.act()}
		c.DepthWise, c.OutputChannels, c.Mask = g.channels(in, out)
		rows, cols := c.KernelSizeX+c.XStride*r.Intn(3), c.KernelSizeY+c.YStride*r.Intn(3)
		if r.Intn(12) == 0 { // larger ones
			c.KernelSizeX, c.KernelSizeY, c.XStride, c.YStride = 1+r.Intn(5), 1+r.Intn(5), 1+r.Intn(4), 1+r.Intn(4)
			rows, cols = c.KernelSizeX+c.XStride*r.Intn(5), c.KernelSizeY+c.YStride*r.Intn(5)
		}
		if r.Intn(4) == 0 {
			cols = 1 + r.Intn(6)
		}
		if r.Intn(8) == 0 {
			rows = 1 + r.Intn(5)
		}
		return pickT(g.dt, convolution2d.New[float32], convolution2d.New[float64])(c), in, []int{rows, cols}
	}},
	{"pooling", "C23", func(g *lgen) (nn.StandardModel, int, []int) {
		pr, pc := 1+g.r.Intn(3), 1+g.r.Intn(3)
		rows, cols := pr*(1+g.r.Intn(3)), pc*(1+g.r.Intn(3))
		if g.r.Intn(8) == 0 { // larger ones
			pr, pc = 1+g.r.Intn(6), 1+g.r.Intn(6)
			rows, cols = pr*(1+g.r.Intn(5)), pc*(1+g.r.Intn(5))
		}
		if g.r.Intn(5) == 0 {
			rows, cols = 1+g.r.Intn(5), 1+g.r.Intn(5)
		}
		return pooling.NewMax(pr, pc), 1 + g.r.Intn(3), []int{rows, cols}
	}},

	{"layernorm", "C21", func(g *lgen) (nn.StandardModel, int, []int) {
		n := 1 + g.up(6)
		eps := []float64{1e-12, 1e-5, 0.1}[g.r.Intn(3)]
		if n == 1 {
			eps = 0.1
		}
		return pickT(g.dt, layernorm.New[float32], layernorm.New[float64])(n, eps), g.seqLen(), col(n)
	}},
	{"layernormsimple", "C21", func(g *lgen) (nn.StandardModel, int, []int) {
		return layernormsimple.New(), g.seqLen(), g.normShape()
	}},
	{"adanorm", "C21", func(g *lgen) (nn.StandardModel, int, []int) {
		return pickT(g.dt, adanorm.New[float32], adanorm.New[float64])(tenth(g.gen, 3, 20)), g.seqLen(), g.normShape()
	}},
	{"rmsnorm", "C21", func(g *lgen) (nn.StandardModel, int, []int) {
		n := 1 + g.up(6)
		return pickT(g.dt, rmsnorm.New[float32], rmsnorm.New[float64])(n), g.seqLen(), col(n)
	}},
	{"scalenorm", "C21", func(g *lgen) (nn.StandardModel, int, []int) {
		n := 1 + g.up(6)
		return pickT(g.dt, scalenorm.New[float32], scalenorm.New[float64])(n), g.seqLen(), col(n)
	}},
	{"fixnorm", "C21", func(g *lgen) (nn.StandardModel, int, []int) { return fixnorm.New(), g.seqLen(), g.normShape() }},
	{"batchnorm", "C21", func(g *lgen) (nn.StandardModel, int, []int) {
		n := 1 + g.up(5)
		return g.batchnorm(n), g.seqLen(), col(n)
	}},

	{"rnn", "C19", func(g *lgen) (nn.StandardModel, int, []int) {
		in, out := 1+g.up(3), 1+g.up(3)
		return newRnn(g, in, out), g.seqLen(), col(in)
	}},
	{"slstm", "C19", func(g *lgen) (nn.StandardModel, int, []int) {
		in, out := 1+g.r.Intn(2), 1+g.r.Intn(2)
		n, steps := 1+g.r.Intn(4), 1+g.r.Intn(4)
		switch g.r.Intn(12) {
		case 0: // a longer sentence
			n, steps = 5+g.r.Intn(8), 1+g.r.Intn(2)
		case 1: // many steps
			n, steps = 1+g.r.Intn(3), 5+g.r.Intn(4)
		case 2:
			in, out, steps = 3+g.r.Intn(3), 3+g.r.Intn(3), 1+g.r.Intn(2)
		}
		c := slstm.Config{InputSize: in, OutputSize: out, Steps: steps}
		return pickT(g.dt, slstm.New[float32], slstm.New[float64])(c), n, col(in)
	}},
	{"birnn", "C19", func(g *lgen) (nn.StandardModel, int, []int) {
		in, out := 1+g.up(3), 1+g.up(3)
		merge := []birnn.MergeType{birnn.Concat, birnn.Sum, birnn.Prod, birnn.Avg}[g.r.Intn(4)]
		switch g.r.Intn(8) {
		case 0:
			return pickT(g.dt, birnn.NewBiLSTM[float32], birnn.NewBiLSTM[float64])(in, out, merge), g.seqLen(), col(in)
		case 1:
			return pickT(g.dt, birnn.NewBiGRU[float32], birnn.NewBiGRU[float64])(in, out, merge), g.seqLen(), col(in)
		case 2:
			k := g.r.Intn(2)
			return pickT(g.dt, birnn.NewBiBiLSTM[float32], birnn.NewBiBiLSTM[float64])(in, out, merge)[k], g.seqLen(), col([]int{in, 2 * out}[k])
		}
		p, q := newRnn(g, in, out), newRnn(g, in, out)
		if g.r.Intn(8) == 0 {
			q = p
		}
		return birnn.New(p, q, merge), g.seqLen(), col(in)
	}},
}

func (g *lgen) normShape() []int {
	if g.r.Intn(4) == 0 {
		return []int{1 + g.r.Intn(3), 2 + g.r.Intn(3)}
	}
	return col(2 + g.up(5))
}

func (g *lgen) batchnorm(n int) *batchnorm.Model {
	mom := []float64{0.9, 0.5, 0.99, 0}[g.r.Intn(4)]
	var m *batchnorm.Model
	if g.dt == "f32" {
		m = batchnorm.NewWithMomentum[float32](n, float32(mom))
	} else {
		m = batchnorm.NewWithMomentum[float64](n, mom)
	}
	if g.r.Intn(4) > 0 {
		g.setBuf(m.Mean, g.uni(n))
		g.setBuf(m.StdDev, g.pos(n))
	}
	return m
}

func (g *lgen) setBuf(b *nn.Buffer, vs []float64) {
	b.Value().(mat.Matrix).SetData(newMat(g.dt, col(len(vs)), vs, false).Data())
}

// channels chooses between depth-wise, masked and full convolutions.
func (g *lgen) channels(in, out int) (bool, int, []int) {
	switch g.r.Intn(4) {
	case 0:
		return true, in, nil
	case 1:
		mask := make([]int, in)
		mask[g.r.Intn(in)] = 1
		for i := range mask {
			if g.r.Intn(2) == 0 {
				mask[i] = 1
			}
		}
		return false, out, mask
	}
	return false, out, nil
}

// lcase is one recorded application.
type lcase struct {
	rec  M
	run  func() []mat.Tensor // the results
	back bool
	nogy func(k int) bool // results that get no gradient
}

// looked are the tensors that have their gradients compared.
func (g *lgen) looked() []int {
	rg := []int{}
	for i, t := range g.b.ts {
		if t.RequiresGrad() {
			rg = append(rg, i+1)
		}
	}
	g.r.Shuffle(len(rg), func(i, j int) { rg[i], rg[j] = rg[j], rg[i] })
	if g.r.Intn(2) == 0 { // parameters first
		sort.SliceStable(rg, func(i, j int) bool { return isParam(g.b.ts[rg[i]-1]) && !isParam(g.b.ts[rg[j]-1]) })
	}
	most := 6
	if g.wide || g.long {
		most = 2
	}
	return rg[:min(len(rg), most)]
}

func (g *lgen) finish(c *Ctx, lc lcase) {
	rec := lc.rec
	b := g.b
	rec["dt"], rec["t"] = g.dt, b.recs()
	rec["back"] = lc.back
	rec["chk"] = g.looked()
	c.Begin(rec)
	before := make([]Mx, len(b.ts))
	for i, t := range b.ts {
		before[i] = snap(t.Value())
	}
	intact := true
	ys := []Mx{}
	gys := []gradRec{}
	gx := []gradRec{}
	rec["outcome"] = guarded(func() {
		if rec["mode"] != "bn" && g.r.Intn(4) == 0 {
			b.warmUp(g, lc.run)
		}
		out := lc.run()
		for _, y := range out {
			ys = append(ys, snap(y.Value()))
		}
		seen := map[mat.Tensor]bool{}
		var outs []mat.Tensor
		for k, y := range out {
			no := gradRec{Sh: []int{0, 0}, V: []F{}}
			if lc.back && !seen[y] && (lc.nogy == nil || !lc.nogy(k)) && b.pos[y] == 0 && g.r.Intn(8) > 0 {
				seen[y] = true
				seed := newMat(g.dt, y.Value().Shape(), round(g.dt, g.uni(y.Value().Size())), false)
				s := snap(seed)
				no = gradRec{Has: true, Sh: s.Sh, V: s.V}
				if y.RequiresGrad() { // otherwise its derivatives must be zero
					y.AccGrad(seed)
					outs = append(outs, y)
				}
			}
			gys = append(gys, no)
		}
		if len(outs) > 0 {
			if err := ag.Backward(outs...); err != nil {
				panic(err)
			}
		}
		for i, t := range b.ts {
			gx = append(gx, gradOf(t))
			if lc.rec["mode"] != "bn" {
				intact = intact && same(before[i], snap(t.Value()))
			}
		}
	})
	rec["ys"], rec["gys"], rec["gx"], rec["intact"] = ys, gys, gx, intact
	c.Emit(rec)
}

func isParam(t mat.Tensor) bool {
	_, ok := t.(*nn.Param)
	return ok
}

// warmUp uses a layer once while its parameters have other values.
func (b *bench) warmUp(g *lgen, run func() []mat.Tensor) {
	was := map[*nn.Param]mat.Matrix{}
	for _, t := range b.ts {
		if p, ok := t.(*nn.Param); ok {
			was[p] = p.Value().(mat.Matrix).Clone()
			p.Value().(mat.Matrix).AddScalarInPlace(0.5)
		}
	}
	for _, y := range run() {
		y.Value()
	}
	for p, v := range was {
		mat.SetData[float64](p.Value().(mat.Matrix), mat.Data[float64](v))
	}
}

// spread makes scores of very different sizes.
func (g *lgen) spread(xs []mat.Tensor) {
	done := map[mat.Tensor]bool{}
	for _, x := range xs {
		if !done[x] {
			x.Value().(mat.Matrix).ProdScalarInPlace(300)
		}
		done[x] = true
	}
}

func layersOf(prop string) []layerDef {
	var out []layerDef
	for _, d := range layerTable {
		if d.prop == prop {
			out = append(out, d)
		}
	}
	return out
}

func newLgen(r *rand.Rand) *lgen {
	g := &lgen{gen: &gen{r: r}, b: newBench()}
	g.dt = g.dtype()
	if r.Intn(3) == 0 {
		g.dt = "f64"
	}
	g.smooth = g.dt == "f32"
	switch r.Intn(40) {
	case 0:
		g.wide = true
	case 1:
		g.long = true
	}
	return g
}

// layer makes a layer of a kind, and tells which of its parameters were made without gradient.
func (g *lgen) layer(d layerDef) (m nn.StandardModel, n int, sh []int, cold []*nn.Param) {
	switch d.name {
	case "linear", "highway", "flatten", "dropout", "sqrdist", "stack", "conv1x1", "conv1d", "conv2d", "rnn", "slstm", "birnn", "rmsnorm", "fixnorm", "scalenorm":
		g.spice(true)
	case "layernormsimple", "adanorm":
		g.spice(false)
		g.spicy *= 3
	case "layernorm", "batchnorm":
		g.spice(false)
	}
	m, n, sh = d.gen(g)
	nn.ForEachParam(m, func(p *nn.Param) {
		if !p.RequiresGrad() {
			cold = append(cold, p)
		}
	})
	if d.name != "activation" {
		g.fill(m)
	}
	switch d.name {
	case "gmlp", "sgu", "mixer": // their inner normalizations see nearly constant vectors now and then: keep that well conditioned
		eps := []float64{1e-3, 1e-2, 0.1}[g.r.Intn(3)]
		nn.Apply(m, func(m nn.Model) {
			if l, ok := m.(*layernorm.Model); ok {
				g.setBuf(l.Eps, []float64{eps})
			}
		})
	}
	return
}

func runLayer(c *Ctx, g *lgen, d layerDef) {
	m, n, sh, cold := g.layer(d)
	switch d.name {
	case "layernorm", "layernormsimple", "adanorm": // vectors whose elements are far from zero, compared with their differences
		if g.dt == "f64" && g.spicy == 0 && g.r.Intn(3) == 0 {
			g.far = 3e4 * g.uni(1)[0]
		}
	}
	xs := g.inputs(n, sh)
	ids := g.b.addAll(xs)
	rec := M{"mode": "fwd", "key": d.name, "m": g.b.model(m), "xs": ids, "cold": []int{}}
	for _, p := range cold {
		rec["cold"] = append(rec["cold"].([]int), g.b.add(p))
	}
	in := g.hide(xs)
	back := d.name != "dropout"
	g.finish(c, lcase{rec: rec, back: back, run: func() []mat.Tensor { return m.Forward(in...) }})
}

// pieces cuts a sequence of n items.
func (g *lgen) pieces(n int) []int {
	var out []int
	for n > 0 {
		k := 1 + g.r.Intn(n)
		if g.r.Intn(3) == 0 {
			k = 1
		}
		out = append(out, k)
		n -= k
	}
	return out
}

func runRnn(c *Ctx, g *lgen) {
	g.spice(true)
	in := 1 + g.r.Intn(3)
	out := 1 + g.r.Intn(3)
	m := newRnn(g, in, out)
	g.fill(m)
	rec, run := g.rnnCall(m, in, out)
	rec["key"], rec["m"] = "rnn/state", g.b.model(m)
	g.finish(c, lcase{rec: rec, back: true, run: run})
}

// rnnCall processes a sequence step by step.
func (g *lgen) rnnCall(m nn.StandardModel, in, out int) (M, func() []mat.Tensor) {
	n := 1 + g.r.Intn(5)
	if g.r.Intn(20) == 0 {
		n = 12 + g.r.Intn(24)
	}
	xs := g.inputs(n, col(in))
	ids := g.b.addAll(xs)
	s0 := M{"Y": 0, "Cell": 0}
	var y0, c0 mat.Tensor
	if g.r.Intn(3) > 0 {
		y0 = g.inputs(1, col(out))[0]
		c0 = g.inputs(1, col(out))[0]
		s0["Y"], s0["Cell"] = g.b.add(y0), g.b.add(c0)
	}
	// a second continuation of one of the states
	from, x2 := g.r.Intn(n+1), g.inputs(1, col(in))[0]
	rec := M{"mode": "rnn", "xs": ids, "s0": s0, "from": from, "x2": g.b.add(x2)}
	xh := g.hide(xs)
	return rec, func() []mat.Tensor {
		var ys []mat.Tensor
		switch m := m.(type) {
		case *srn.Model:
			var s *srn.State
			if y0 != nil {
				s = &srn.State{Y: y0}
			}
			all := []*srn.State{s}
			for _, x := range xh {
				s = m.Next(s, x)
				all = append(all, s)
			}
			for _, s := range append(all[1:], m.Next(all[from], x2)) {
				ys = append(ys, s.Y)
			}
		case *gru.Model:
			var s *gru.State
			if y0 != nil {
				s = &gru.State{Y: y0}
			}
			all := []*gru.State{s}
			for _, x := range xh {
				s = m.Next(s, x)
				all = append(all, s)
			}
			for _, s := range append(all[1:], m.Next(all[from], x2)) {
				ys = append(ys, s.Y)
			}
		case *lstm.Model:
			var s *lstm.State
			if y0 != nil {
				s = &lstm.State{Y: y0, Cell: c0}
			}
			all := []*lstm.State{s}
			for _, x := range xh {
				s = m.Next(s, x)
				all = append(all, s)
			}
			for _, s := range append(all[1:], m.Next(all[from], x2)) {
				ys = append(ys, s.Y, s.Cell)
			}
		}
		return ys
	}
}

func runAttention(c *Ctx, g *lgen) {
	g.spice(true)
	nq, nk, dk, dv := g.few(4), g.few(4), 1+g.r.Intn(3), 1+g.r.Intn(3)
	causal := g.r.Intn(2) == 0
	if causal {
		nk = nq // a sequence attending to itself
		if g.r.Intn(3) == 0 {
			nk += g.r.Intn(3) // the queries are its last positions
		}
	}
	q := g.inputs(nq, col(dk))
	k := g.inputs(1, []int{nk, dk})[0]
	v := g.inputs(1, []int{nk, dv})[0]
	if g.dt == "f64" && g.r.Intn(6) == 0 {
		g.spread(append([]mat.Tensor{k}, q...))
	}
	scale := newMat(g.dt, []int{1, 1}, round(g.dt, []float64{tenth(g.gen, 3, 12)}), g.r.Intn(3) == 0)
	rec := M{"mode": "attention", "key": "attention", "q": g.b.addAll(q), "k": g.b.add(k), "v": g.b.add(v), "scale": g.b.add(scale), "causal": causal}
	h := g.hide(append([]mat.Tensor{k, v}, q...))
	g.finish(c, lcase{rec: rec, back: true, run: func() []mat.Tensor {
		ys, ws := attention.ScaledDotProductAttention(h[2:], h[0], h[1], scale, causal)
		return append(append([]mat.Tensor{}, ys...), ws...)
	}})
}

// selfModel is a self- or multi-head attention with its configuration.
type selfModel struct {
	one           *selfattention.Model
	many          *multiheadattention.Model
	in, heads     int
	causal, cross bool
}

func (g *lgen) selfModel(multi bool) *selfModel {
	r := g.r
	s := &selfModel{heads: 1}
	s.cross = r.Intn(4) == 0
	s.causal = !s.cross && r.Intn(3) > 0
	s.in = 1 + r.Intn(3)
	if multi {
		s.heads = g.few(2)
		s.in = s.heads * (1 + r.Intn(2))
		if r.Intn(12) == 0 { // many heads, or wide ones
			s.heads = 1 + r.Intn(9)
			s.in = s.heads * (1 + r.Intn(5))
		}
		s.many = pickT(g.dt, multiheadattention.New[float32], multiheadattention.New[float64])(s.in, s.heads, s.causal, s.cross)
		g.fill(s.many)
		return s
	}
	d := dim(g.gen)
	s.one = pickT(g.dt, selfattention.New[float32], selfattention.New[float64])(selfattention.Config{InputSize: s.in, QuerySize: d, KeySize: d,
		ValueSize: dim(g.gen), ScaleFactor: 1 / math.Sqrt(float64(d)), UseCausalMask: s.causal, IsCrossAttention: s.cross})
	g.fill(s.one)
	return s
}

func (s *selfModel) model() nn.Model {
	if s.many != nil {
		return s.many
	}
	return s.one
}

// selfCall feeds a sequence to an attention in one or several pieces.
func (g *lgen) selfCall(s *selfModel) (M, func() []mat.Tensor) {
	r := g.r
	n := g.few(4)
	cut := g.pieces(n)
	if r.Intn(3) == 0 {
		cut = []int{n}
	}
	xs := g.inputs(n, col(s.in))
	var src []mat.Tensor
	if s.cross {
		src = g.inputs(1+r.Intn(3), col(s.in))
	}
	if g.dt == "f64" && r.Intn(6) == 0 {
		g.spread(append(append([]mat.Tensor{}, xs...), src...))
	}
	var qp, xp [][]mat.Tensor
	var qi, xi [][]int
	hidden := g.hide(xs)
	at := 0
	for _, k := range cut {
		qp, qi = append(qp, hidden[at:at+k]), append(qi, g.b.addAll(xs[at:at+k]))
		if s.cross {
			xp, xi = append(xp, src), append(xi, g.b.addAll(src))
		} else {
			xp, xi = append(xp, hidden[at:at+k]), append(xi, g.b.addAll(xs[at:at+k]))
		}
		at += k
	}
	// other continuations of a cache, that are not followed
	detour := make([]int, len(cut))
	for p := range detour {
		detour[p] = -1
		if r.Intn(3) == 0 {
			detour[p] = r.Intn(len(cut))
		}
	}
	late := r.Intn(2) == 0 // after the one that is followed
	rec := M{"mode": "self", "key": "self", "qs": qi, "xs": xi, "causal": s.causal}
	if s.many != nil {
		rec["mode"], rec["key"] = "multi", "multi"
	}
	if len(cut) > 1 {
		rec["key"] = rec["key"].(string) + "/pieces"
	}
	if m := s.one; m != nil {
		return rec, func() []mat.Tensor {
			var ys, ws []mat.Tensor
			var cache selfattention.Cache
			for p := range qp {
				if d := detour[p]; d >= 0 && !late {
					m.Forward(cache, qp[d], xp[d])
				}
				y, w, next := m.Forward(cache, qp[p], xp[p])
				if d := detour[p]; d >= 0 && late {
					m.Forward(cache, qp[d], xp[d])
				}
				ys, ws, cache = append(ys, y...), append(ws, w...), next
			}
			return append(append(ys, ws...), cache[0], cache[1])
		}
	}
	m := s.many
	return rec, func() []mat.Tensor {
		var ys []mat.Tensor
		hw := make([][]mat.Tensor, s.heads)
		var cache multiheadattention.Cache
		for p := range qp {
			if d := detour[p]; d >= 0 && !late {
				m.Forward(cache, qp[d], xp[d])
			}
			y, w, next := m.Forward(cache, qp[p], xp[p])
			if d := detour[p]; d >= 0 && late {
				m.Forward(cache, qp[d], xp[d])
			}
			ys, cache = append(ys, y...), next
			for h := range w {
				hw[h] = append(hw[h], w[h]...)
			}
		}
		for h := range hw {
			ys = append(append(ys, hw[h]...), cache[h][0], cache[h][1])
		}
		return ys
	}
}

func runSelf(c *Ctx, g *lgen, multi bool) {
	g.spice(true)
	s := g.selfModel(multi)
	rec, run := g.selfCall(s)
	rec["m"] = g.b.model(s.model())
	g.finish(c, lcase{rec: rec, back: true, run: run})
}

func runBatchNormTrain(c *Ctx, g *lgen) {
	n, k := 1+g.r.Intn(4), 2+g.r.Intn(4)
	if g.r.Intn(10) == 0 {
		n, k = 1+g.r.Intn(20), 2+g.r.Intn(40)
	}
	m := g.batchnorm(n)
	g.fill(m)
	xs := g.batch(k, n)
	rec := M{"mode": "bn", "key": "batchnorm/train", "m": g.b.model(m), "xs": g.b.addAll(xs)}
	in := g.hide(xs)
	g.finish(c, lcase{rec: rec, back: true, run: func() []mat.Tensor { return m.ForwardT(in...) }})
}

func runBatchNormHistory(c *Ctx, g *lgen) {
	n := 1 + g.r.Intn(4)
	if g.r.Intn(10) == 0 {
		n = 5 + g.r.Intn(16)
	}
	m := g.batchnorm(n)
	g.fill(m)
	k := 1 + g.r.Intn(5)
	if g.r.Intn(10) == 0 {
		k = 6 + g.r.Intn(10)
	}
	type call struct {
		xs    []mat.Tensor
		train bool
	}
	var cs []call
	calls := make([]M, k)
	for i := range calls {
		size := 2 + g.r.Intn(3)
		switch g.r.Intn(12) {
		case 0:
			if g.dt == "f64" { // nearly everything cancels
				size = 1
			}
		case 1:
			size = 5 + g.r.Intn(30)
		}
		cl := call{g.batch(size, n), g.r.Intn(3) > 0}
		cs = append(cs, cl)
		calls[i] = M{"xs": g.b.addAll(cl.xs), "train": cl.train, "ys": []Mx{}, "mean": Mx{}, "dev": Mx{}, "w": Mx{}, "b": Mx{}}
	}
	rec := M{"mode": "bnhist", "key": "batchnorm/history", "dt": g.dt, "m": g.b.model(m), "intact": true}
	rec["t"] = g.b.recs()
	c.Begin(rec)
	rec["outcome"] = guarded(func() {
		for i, cl := range cs {
			if i > 0 && g.r.Intn(3) == 0 { // as an optimizer does
				for _, p := range []*nn.Param{m.W, m.B} {
					p.Value().(mat.Matrix).AddInPlace(newMat(g.dt, p.Value().Shape(), g.uni(n), false))
				}
			}
			calls[i]["w"], calls[i]["b"] = snap(m.W.Value()), snap(m.B.Value())
			var ys []mat.Tensor
			if cl.train {
				ys = m.ForwardT(cl.xs...)
			} else {
				ys = m.Forward(cl.xs...)
			}
			var back []mat.Tensor
			ms := []Mx{}
			for _, y := range ys {
				ms = append(ms, snap(y.Value()))
				if y.RequiresGrad() {
					y.AccGrad(newMat(g.dt, y.Value().Shape(), g.uni(n), false))
					back = append(back, y)
				}
			}
			if len(back) > 0 && g.r.Intn(2) == 0 {
				if err := ag.Backward(back...); err != nil {
					panic(err)
				}
			}
			calls[i]["ys"], calls[i]["mean"], calls[i]["dev"] = ms, snap(m.Mean.Value()), snap(m.StdDev.Value())
		}
	})
	rec["calls"] = calls
	c.Emit(rec)
}

func (g *lgen) crf(scale float64) (*crf.Model, []mat.Tensor) {
	L := 1 + g.r.Intn(4)
	n := 1 + g.r.Intn(4)
	if g.r.Intn(5) == 0 {
		n = 5 + g.r.Intn(130)
		L = 1 + g.r.Intn(3)
	} else if g.r.Intn(6) == 0 {
		L = 5 + g.r.Intn(8)
		n = 1 + g.r.Intn(6)
	}
	m := pickT(g.dt, crf.New[float32], crf.New[float64])(L)
	g.fill(m)
	for _, v := range []*nn.Param{m.TransitionScores} {
		v.Value().(mat.Matrix).ProdScalarInPlace(scale)
	}
	xs := g.inputs(n, col(L))
	for _, x := range xs {
		if g.b.pos[x] > 0 && g.r.Intn(2) == 0 {
			x.Value().(mat.Matrix).ProdScalarInPlace(scale)
		}
	}
	return m, xs
}

// forbid makes some transitions (nearly) impossible.
func (g *lgen) forbid(m *crf.Model, v float64) {
	x := m.TransitionScores.Value().(mat.Matrix)
	for i := 0; i <= m.Size; i++ {
		for j := 0; j <= m.Size; j++ {
			if g.r.Intn(3) == 0 {
				x.SetScalar(x.NewScalar(v).Item(), i, j)
			}
		}
	}
}

func runCrf(c *Ctx, g *lgen) {
	g.spice(true)
	scale := []float64{1, 1, 3, 30, 100}[g.r.Intn(5)]
	m, xs := g.crf(scale)
	if g.r.Intn(5) == 0 {
		g.forbid(m, []float64{-1e3, -1e4}[g.r.Intn(2)])
	}
	gold := make([]int, len(xs))
	for i := range gold {
		gold[i] = g.r.Intn(m.Size)
	}
	rec := M{"mode": "crf", "key": "crf/nll", "m": g.b.model(m), "xs": g.b.addAll(xs), "gold": inc(gold)}
	in := g.hide(xs)
	g.finish(c, lcase{rec: rec, back: len(xs) < 8, run: func() []mat.Tensor { return []mat.Tensor{m.NegativeLogLoss(in, gold)} }})
}

func runDecode(c *Ctx, g *lgen) {
	scale := []float64{1, 1, 3, 30, 100}[g.r.Intn(5)]
	m, xs := g.crf(scale)
	g.b.model(m)
	if g.r.Intn(5) == 0 { // ties
		for _, t := range g.b.ts {
			v := make([]float64, t.Value().Size())
			for k := range v {
				v[k] = float64(g.r.Intn(3) - 1)
			}
			t.Value().(mat.Matrix).SetData(newMat(g.dt, t.Value().Shape(), v, false).Data())
		}
	}
	if g.r.Intn(5) == 0 { // almost ties
		for _, t := range g.b.ts {
			v := make([]float64, t.Value().Size())
			for k := range v {
				v[k] = float64(g.r.Intn(3)-1) + float64(g.r.Intn(9)-4)*1e-9
			}
			t.Value().(mat.Matrix).SetData(newMat(g.dt, t.Value().Shape(), v, false).Data())
		}
	}
	if g.r.Intn(5) == 0 { // far below zero, or above
		f := []float64{-1e9, -1e12, 1e10}[g.r.Intn(3)]
		for _, t := range g.b.ts {
			v := make([]float64, t.Value().Size())
			for k := range v {
				v[k] = f * float64(2+g.r.Intn(30))
			}
			t.Value().(mat.Matrix).SetData(newMat(g.dt, t.Value().Shape(), v, false).Data())
		}
	} else if g.r.Intn(5) == 0 {
		g.forbid(m, []float64{-1e4, -1e12, math.Inf(-1)}[g.r.Intn(3)])
	}
	rec := M{"mode": "decode", "key": "crf/decode", "m": g.b.model(m), "xs": g.b.addAll(xs)}
	rec["dt"], rec["t"], rec["intact"] = g.dt, g.b.recs(), true
	c.Begin(rec)
	path := []int{}
	rec["outcome"] = guarded(func() { path = m.Decode(g.hide(xs)) })
	rec["path"] = inc(path)
	c.Emit(rec)
}

var lossNames = []string{"MAE", "MSE", "NLL", "CrossEntropy", "WeightedCrossEntropy", "FocalLoss", "WeightedFocalLoss", "Perplexity",
	"ZeroOneQuantization", "Norm2Quantization", "OneHotQuantization", "Distance", "MSESeq", "MAESeq", "CrossEntropySeq", "SPG"}

func runLoss(c *Ctx, g *lgen, name string) {
	r := g.r
	switch name {
	case "MSE", "CrossEntropy", "WeightedCrossEntropy", "Perplexity", "ZeroOneQuantization", "Norm2Quantization", "OneHotQuantization", "MSESeq", "CrossEntropySeq", "SPG":
		g.spice(true)
	case "FocalLoss", "WeightedFocalLoss":
		g.spice(false)
	}
	n := 1 + r.Intn(5)
	if r.Intn(12) == 0 {
		n = 6 + r.Intn(30)
	}
	k := 1
	mean := r.Intn(2) == 0
	sh := col(n)
	var xs, ys []mat.Tensor
	a := M{"loss": name, "mean": mean, "c": []int{}, "w": 0, "gamma": F(0), "q": F(0)}
	var cs []int
	gamma := []float64{0, 1, 2, 0.5, 3.5}[r.Intn(5)]
	q := tenth(g.gen, -15, 15)
	var w mat.Matrix
	switch name {
	case "MAE", "MSE":
		if r.Intn(2) == 0 {
			sh = g.shape()
		}
	case "MSESeq", "MAESeq", "CrossEntropySeq":
		k = 1 + r.Intn(4)
		if r.Intn(6) == 0 {
			k = 5 + r.Intn(30)
		}
	case "SPG":
		k, sh = 1+r.Intn(4), col(1)
		if r.Intn(6) == 0 {
			k = 5 + r.Intn(30)
		}
	case "Distance":
		sh = col(1)
	}
	xs = g.inputs(k, sh)
	key := "loss/" + name
	switch name {
	case "MAE", "MSE", "MSESeq", "MAESeq", "SPG":
		ys = g.inputs(k, sh)
		if name == "MAE" || name == "MAESeq" { // keep away from the kink
			for i := range ys {
				if ys[i] == xs[i] {
					ys[i] = g.inputs(1, sh)[0]
				}
				ys[i].Value().(mat.Matrix).ProdScalarInPlace(0.37).AddScalarInPlace(0.011)
			}
		}
	case "NLL":
		x := newMat(g.dt, sh, round(g.dt, g.pos(n)), true)
		g.b = newBench()
		g.b.add(x)
		xs = []mat.Tensor{x}
		one := make([]float64, n)
		one[r.Intn(n)] = 1
		y := newMat(g.dt, sh, one, r.Intn(3) == 0)
		g.b.add(y)
		ys = []mat.Tensor{y}
	case "CrossEntropy", "WeightedCrossEntropy", "FocalLoss", "WeightedFocalLoss", "Perplexity", "CrossEntropySeq":
		for range xs {
			cs = append(cs, r.Intn(n))
		}
		spread := []float64{1, 1, 1, 10, 40}[r.Intn(5)]
		if name == "Perplexity" || gamma == 0.5 && (name == "FocalLoss" || name == "WeightedFocalLoss") {
			spread = 1
		}
		if spread > 1 {
			key += "/spread"
		}
		done := map[mat.Tensor]bool{}
		for _, x := range xs {
			if !done[x] {
				done[x] = true
				x.Value().(mat.Matrix).ProdScalarInPlace(spread)
			}
		}
		if name == "WeightedCrossEntropy" || name == "WeightedFocalLoss" {
			ws := g.pos(n)
			if g.spicy > 0 {
				ws[r.Intn(n)] = []float64{0, 1}[r.Intn(2)]
			}
			w = newMat(g.dt, sh, round(g.dt, ws), false)
			a["w"] = g.b.add(w)
		}
		if n == 1 && gamma == 0.5 && (name == "FocalLoss" || name == "WeightedFocalLoss") {
			key += "/certain" // a single class has probability one
		}
	}
	a["x"], a["y"] = g.b.addAll(xs), g.b.addAll(ys)
	a["c"], a["gamma"], a["q"] = inc(cs), F(gamma), F(q)
	rec := M{"mode": "loss", "key": key, "a": a}
	x := g.hide(xs)
	y := g.hide(ys)
	g.finish(c, lcase{rec: rec, back: true, run: func() []mat.Tensor {
		var l mat.Tensor
		switch name {
		case "MAE":
			l = losses.MAE(x[0], y[0], mean)
		case "MSE":
			l = losses.MSE(x[0], y[0], mean)
		case "NLL":
			l = losses.NLL(x[0], y[0])
		case "CrossEntropy":
			l = losses.CrossEntropy(x[0], cs[0])
		case "WeightedCrossEntropy":
			l = losses.WeightedCrossEntropy(w)(x[0], cs[0])
		case "FocalLoss":
			l = losses.FocalLoss(x[0], cs[0], gamma)
		case "WeightedFocalLoss":
			l = losses.WeightedFocalLoss(w)(x[0], cs[0], gamma)
		case "Perplexity":
			l = losses.Perplexity(x[0], cs[0])
		case "ZeroOneQuantization":
			l = losses.ZeroOneQuantization(x[0])
		case "Norm2Quantization":
			l = losses.Norm2Quantization(x[0])
		case "OneHotQuantization":
			l = losses.OneHotQuantization(x[0], q)
		case "Distance":
			l = losses.Distance(x[0], q)
		case "MSESeq":
			l = losses.MSESeq(x, y, mean)
		case "MAESeq":
			l = losses.MAESeq(x, y, mean)
		case "CrossEntropySeq":
			l = losses.CrossEntropySeq(x, cs, mean)
		case "SPG":
			l = losses.SPG(x, y)
		}
		return []mat.Tensor{l}
	}})
}

func init() {
	layerCmd := func(prop string) func(c *Ctx) {
		return func(c *Ctx) {
			ds := layersOf(prop)
			c.Cases(func(i int, r *rand.Rand) { runLayer(c, newLgen(r), ds[(i/c.Of)%len(ds)]) })
		}
	}
	commands["layer-ff"] = layerCmd("C24")
	commands["layer-conv"] = layerCmd("C23")
	commands["layer-norm"] = layerCmd("C21")
	commands["layer-rnn"] = layerCmd("C19")
	simple := func(name string, f func(c *Ctx, g *lgen)) {
		commands[name] = func(c *Ctx) { c.Cases(func(i int, r *rand.Rand) { f(c, newLgen(r)) }) }
	}
	simple("rnn-state", runRnn)
	simple("bn-train", runBatchNormTrain)
	simple("bn-history", runBatchNormHistory)
	simple("crf-nll", runCrf)
	simple("crf-decode", runDecode)
	commands["attention"] = func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) {
			g := newLgen(r)
			switch (i / c.Of) % 4 {
			case 0:
				runAttention(c, g)
			case 1, 2:
				runSelf(c, g, false)
			default:
				runSelf(c, g, true)
			}
		})
	}
	commands["loss"] = func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) { runLoss(c, newLgen(r), lossNames[(i/c.Of)%len(lossNames)]) })
	}
}
