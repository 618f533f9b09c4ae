package main

import (
	"math/rand"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// opCase is one operator application: operand shapes and values and settings.
type opCase struct {
	op string
	p  M
	sh [][]int
	v  [][]float64
}

type opDef struct {
	name string
	gen  func(g *gen) opCase
	run  func(p M, xs []mat.Tensor) mat.Tensor
}

func ival(p M, k string) int { return p[k].(int) }

func unary(name string, f func(mat.Tensor) mat.Tensor, vals func(g *gen, n int) []float64) opDef {
	return opDef{name,
		func(g *gen) opCase {
			sh := g.shape()
			return opCase{op: name, p: M{}, sh: [][]int{sh}, v: [][]float64{vals(g, size(sh))}}
		},
		func(p M, xs []mat.Tensor) mat.Tensor { return f(xs[0]) }}
}

func gAny(g *gen, n int) []float64     { return g.any(n) }
func gPos(g *gen, n int) []float64     { return g.pos(n) }
func gNonzero(g *gen, n int) []float64 { return g.nonzero(n) }
func gTan(g *gen, n int) []float64     { return g.grid(n, -12, 12) }

// gWide sometimes yields values far outside the usual range.
func gWide(g *gen, n int) []float64 {
	vs := g.any(n)
	if g.r.Intn(4) == 0 {
		for i := range vs {
			if g.r.Intn(2) == 0 {
				vs[i] *= []float64{10, 30, 100, 150, 300}[g.r.Intn(5)]
			}
		}
	}
	return vs
}

// pfn is an element-wise operator with scalar tensors as further operands.
func pfn(name string, f func(xs []mat.Tensor) mat.Tensor, vals func(g *gen, n int) []float64, params func(g *gen) []float64) opDef {
	return opDef{name,
		func(g *gen) opCase {
			sh := g.shape()
			c := opCase{op: name, p: M{}, sh: [][]int{sh}, v: [][]float64{vals(g, size(sh))}}
			for _, q := range params(g) {
				c.sh = append(c.sh, []int{1, 1})
				c.v = append(c.v, []float64{q})
			}
			return c
		},
		func(p M, xs []mat.Tensor) mat.Tensor { return f(xs) }}
}

// tenth returns a multiple of 0.1.
func tenth(g *gen, lo, hi int) float64 { return float64(lo+g.r.Intn(hi-lo)) / 10 }

func binary(name string, f func(a, b mat.Tensor) mat.Tensor, vals2 func(g *gen, n int) []float64) opDef {
	return opDef{name,
		func(g *gen) opCase {
			sh := g.shape()
			n := size(sh)
			all := g.any(2 * n)
			v2 := all[n:]
			if vals2 != nil {
				v2 = vals2(g, n)
			}
			return opCase{op: name, p: M{}, sh: [][]int{sh, append([]int{}, sh...)}, v: [][]float64{all[:n], v2}}
		},
		func(p M, xs []mat.Tensor) mat.Tensor { return f(xs[0], xs[1]) }}
}

func matGen(name string, p M, g *gen, shs ...[]int) opCase {
	c := opCase{op: name, p: p, sh: shs}
	total := 0
	for _, s := range shs {
		total += size(s)
	}
	all := g.any(total)
	for _, s := range shs {
		c.v = append(c.v, all[:size(s)])
		all = all[size(s):]
	}
	return c
}

func dim(g *gen) int { return 1 + g.up(4) }

var opTable = []opDef{
	unary("Abs", ag.Abs, gAny), unary("Cos", ag.Cos, gWide), unary("Exp", ag.Exp, gAny),
	unary("GELU", ag.GELU, gAny), unary("HardSigmoid", ag.HardSigmoid, gWide), unary("HardTanh", ag.HardTanh, gWide),
	unary("Copy", ag.Copy, gAny), unary("Log", ag.Log, gPos), unary("Mish", ag.Mish, gWide), unary("Neg", ag.Neg, gAny),
	unary("Reciprocal", ag.Reciprocal, gNonzero), unary("ReLU", ag.ReLU, gWide), unary("Sigmoid", ag.Sigmoid, gWide),
	unary("SiLU", ag.SiLU, gWide), unary("Swish", ag.Swish, gWide), unary("Sin", ag.Sin, gWide),
	unary("Softsign", ag.Softsign, gAny), unary("Sqrt", ag.Sqrt, gPos), unary("Square", ag.Square, gAny),
	unary("Tan", ag.Tan, gTan), unary("Tanh", ag.Tanh, gWide), unary("ReverseSubOne", ag.ReverseSubOne, gAny),
	unary("PositiveELU", ag.PositiveELU, gAny),

	pfn("CELU", func(xs []mat.Tensor) mat.Tensor { return ag.CELU(xs[0], xs[1]) }, gAny, func(g *gen) []float64 { return []float64{tenth(g, 3, 20)} }),
	pfn("ELU", func(xs []mat.Tensor) mat.Tensor { return ag.ELU(xs[0], xs[1]) }, gAny, func(g *gen) []float64 { return []float64{tenth(g, 3, 20)} }),
	pfn("LeakyReLU", func(xs []mat.Tensor) mat.Tensor { return ag.LeakyReLU(xs[0], xs[1]) }, gAny, func(g *gen) []float64 { return []float64{tenth(g, 1, 9)} }),
	pfn("SELU", func(xs []mat.Tensor) mat.Tensor { return ag.SELU(xs[0], xs[1], xs[2]) }, gAny, func(g *gen) []float64 { return []float64{tenth(g, 3, 20), tenth(g, 3, 20)} }),
	pfn("SoftPlus", func(xs []mat.Tensor) mat.Tensor { return ag.SoftPlus(xs[0], xs[1], xs[2]) }, gWide, func(g *gen) []float64 {
		return []float64{tenth(g, 3, 20), []float64{20, 1.5, 2, 30}[g.r.Intn(4)]}
	}),
	pfn("SoftShrink", func(xs []mat.Tensor) mat.Tensor { return ag.SoftShrink(xs[0], xs[1]) }, gAny, func(g *gen) []float64 { return []float64{tenth(g, 2, 20)} }),
	pfn("Threshold", func(xs []mat.Tensor) mat.Tensor { return ag.Threshold(xs[0], xs[1], xs[2]) }, gAny, func(g *gen) []float64 { return []float64{tenth(g, -15, 15), tenth(g, -15, 15)} }),
	pfn("SwishB", func(xs []mat.Tensor) mat.Tensor { return ag.SwishB(xs[0], xs[1]) }, gWide, func(g *gen) []float64 { return []float64{tenth(g, -15, 25)} }),
	pfn("AddScalar", func(xs []mat.Tensor) mat.Tensor { return ag.AddScalar(xs[0], xs[1]) }, gAny, func(g *gen) []float64 { return g.any(1) }),
	pfn("SubScalar", func(xs []mat.Tensor) mat.Tensor { return ag.SubScalar(xs[0], xs[1]) }, gAny, func(g *gen) []float64 { return g.any(1) }),
	pfn("ReverseSub", func(xs []mat.Tensor) mat.Tensor { return ag.ReverseSub(xs[0], xs[1]) }, gAny, func(g *gen) []float64 { return g.any(1) }),
	pfn("ProdScalar", func(xs []mat.Tensor) mat.Tensor { return ag.ProdScalar(xs[0], xs[1]) }, gAny, func(g *gen) []float64 { return g.any(1) }),
	pfn("DivScalar", func(xs []mat.Tensor) mat.Tensor { return ag.DivScalar(xs[0], xs[1]) }, gAny, func(g *gen) []float64 { return g.nonzero(1) }),

	binary("Add", ag.Add, nil), binary("Sub", ag.Sub, nil), binary("Prod", ag.Prod, nil),
	binary("Div", ag.Div, gNonzero), binary("Max", ag.Max, nil), binary("Min", ag.Min, nil), binary("Dot", ag.Dot, nil),

	{"Pow", func(g *gen) opCase {
		sh := g.shape()
		ps := []float64{2, 3, 1, 0.5, -1, 1.7, 0}
		p := ps[g.r.Intn(len(ps))]
		v := g.pos(size(sh))
		if p == 2 || p == 3 || p == 0 {
			v = g.any(size(sh))
		}
		if (p == 0 || p == 1 || p == 2) && g.r.Intn(2) == 0 {
			v[g.r.Intn(len(v))] = 0
		}
		return opCase{op: "Pow", p: M{"power": F(p)}, sh: [][]int{sh}, v: [][]float64{v}}
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.Pow(xs[0], float64(p["power"].(F))) }},
	{"AppendRows", func(g *gen) opCase {
		r, c, n := dim(g), dim(g), 1+g.up(3)
		shs := [][]int{{r, c}}
		for i := 0; i < n; i++ {
			if g.r.Intn(2) == 0 {
				shs = append(shs, []int{1, c})
			} else {
				shs = append(shs, []int{c, 1})
			}
		}
		return matGen("AppendRows", M{}, g, shs...)
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.AppendRows(xs[0], xs[1:]...) }},
	{"At", func(g *gen) opCase {
		r, c := dim(g), dim(g)
		return matGen("At", M{"i": g.r.Intn(r), "j": g.r.Intn(c)}, g, []int{r, c})
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.At(xs[0], ival(p, "i"), ival(p, "j")) }},
	{"AtVec", func(g *gen) opCase {
		sh := g.vecShape()
		return matGen("AtVec", M{"i": g.r.Intn(size(sh))}, g, sh)
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.At(xs[0], ival(p, "i")) }},
	{"AtVec", func(g *gen) opCase {
		sh := g.vecShape()
		return matGen("AtVec", M{"i": g.r.Intn(size(sh))}, g, sh)
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.SeparateVec(xs[0])[ival(p, "i")] }},
	{"At", func(g *gen) opCase {
		r, c := dim(g), dim(g)
		return matGen("At", M{"i": g.r.Intn(r), "j": g.r.Intn(c)}, g, []int{r, c})
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.SeparateMatrix(xs[0])[ival(p, "i")][ival(p, "j")] }},
	{"ColView", func(g *gen) opCase {
		r, c := dim(g), dim(g)
		return matGen("ColView", M{"i": g.r.Intn(c)}, g, []int{r, c})
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.ColView(xs[0], ival(p, "i")) }},
	{"ColView", func(g *gen) opCase {
		r, c := dim(g), dim(g)
		return matGen("ColView", M{"i": g.r.Intn(c)}, g, []int{r, c})
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.ColViews(xs[0])[ival(p, "i")] }},
	{"RowView", func(g *gen) opCase {
		r, c := dim(g), dim(g)
		return matGen("RowView", M{"i": g.r.Intn(r)}, g, []int{r, c})
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.RowView(xs[0], ival(p, "i")) }},
	{"RowView", func(g *gen) opCase {
		r, c := dim(g), dim(g)
		return matGen("RowView", M{"i": g.r.Intn(r)}, g, []int{r, c})
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.RowViews(xs[0])[ival(p, "i")] }},
	{"Concat", func(g *gen) opCase {
		n := 1 + g.up(4)
		var shs [][]int
		for i := 0; i < n; i++ {
			shs = append(shs, g.vecShape())
		}
		return matGen("Concat", M{}, g, shs...)
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.Concat(xs...) }},
	{"Pad", func(g *gen) opCase { // the last operand is the padding
		n := 1 + g.up(5)
		var shs [][]int
		for i := 0; i <= n; i++ {
			shs = append(shs, g.vecShape())
		}
		return matGen("Pad", M{"k": 1 + g.up(7)}, g, shs...)
	}, func(p M, xs []mat.Tensor) mat.Tensor {
		n := len(xs) - 1
		return ag.Concat(ag.Pad(xs[:n:n], ival(p, "k"), func(i int) mat.Tensor {
			return ag.AddScalar(xs[n], xs[n].Value().(mat.Matrix).NewScalar(float64(i)))
		})...)
	}},
	{"MapNeg", func(g *gen) opCase {
		var shs [][]int
		for i := g.up(5); i >= 0; i-- {
			shs = append(shs, g.vecShape())
		}
		return matGen("MapNeg", M{}, g, shs...)
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.Concat(ag.Map(ag.Neg, xs)...) }},
	{"Map2Sub", func(g *gen) opCase {
		var shs [][]int
		for i := g.up(4); i >= 0; i-- {
			shs = append(shs, g.vecShape())
		}
		return matGen("Map2Sub", M{}, g, append(shs, shs...)...)
	}, func(p M, xs []mat.Tensor) mat.Tensor {
		n := len(xs) / 2
		return ag.Concat(ag.Map2(ag.Sub, xs[:n], xs[n:])...)
	}},
	unary("Flatten", ag.Flatten, gAny),
	{"Reshape", func(g *gen) opCase {
		r, c := dim(g), dim(g)
		n := r * c
		var ds []int
		for d := 1; d <= n; d++ {
			if n%d == 0 {
				ds = append(ds, d)
			}
		}
		d := ds[g.r.Intn(len(ds))]
		return matGen("Reshape", M{"r": d, "c": n / d}, g, []int{r, c})
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.Reshape(xs[0], ival(p, "r"), ival(p, "c")) }},
	{"Slice", func(g *gen) opCase {
		r, c := dim(g)+1, dim(g)+1
		fr, fc := g.r.Intn(r), g.r.Intn(c)
		tr, tc := fr+1+g.r.Intn(r-fr), fc+1+g.r.Intn(c-fc)
		return matGen("Slice", M{"fr": fr, "fc": fc, "tr": tr, "tc": tc}, g, []int{r, c})
	}, func(p M, xs []mat.Tensor) mat.Tensor {
		return ag.Slice(xs[0], ival(p, "fr"), ival(p, "fc"), ival(p, "tr"), ival(p, "tc"))
	}},
	{"SplitVec", func(g *gen) opCase {
		n, w := dim(g), dim(g)
		return matGen("SplitVec", M{"n": n, "i": g.r.Intn(n)}, g, []int{n * w, 1})
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.SplitVec(xs[0], ival(p, "n"))[ival(p, "i")] }},
	{"Stack", func(g *gen) opCase {
		n, w := dim(g), dim(g)
		var shs [][]int
		for i := 0; i < n; i++ {
			if g.r.Intn(2) == 0 {
				shs = append(shs, []int{1, w})
			} else {
				shs = append(shs, []int{w, 1})
			}
		}
		return matGen("Stack", M{}, g, shs...)
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.Stack(xs...) }},
	unary("T", ag.T, gAny),
	{"RotateR", func(g *gen) opCase {
		n := 1 + g.up(6)
		return matGen("RotateR", M{"i": g.r.Intn(n + 1)}, g, []int{n, 1})
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.RotateR(xs[0], ival(p, "i")) }},
	{"MaxPooling", func(g *gen) opCase {
		pr, pc := 1+g.r.Intn(3), 1+g.r.Intn(3)
		return matGen("MaxPooling", M{"r": pr, "c": pc}, g, []int{pr * (1 + g.up(3)), pc * (1 + g.up(2))})
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.MaxPooling(xs[0], ival(p, "r"), ival(p, "c")) }},
	unary("ReduceMean", ag.ReduceMean, gAny), unary("ReduceSum", ag.ReduceSum, gAny), vecOp("ReduceMax", ag.ReduceMax),
	{"ScalarMax", func(g *gen) opCase {
		var shs [][]int
		for i := g.up(5); i >= 0; i-- {
			shs = append(shs, []int{1, 1})
		}
		c := matGen("ScalarMax", M{}, g, shs...)
		allNegative(g, &c)
		return c
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.ScalarMax(xs) }},
	{"Mul", func(g *gen) opCase {
		r, k, c := dim(g), dim(g), dim(g)
		return matGen("Mul", M{}, g, []int{r, k}, []int{k, c})
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.Mul(xs[0], xs[1]) }},
	{"MulT", func(g *gen) opCase {
		r, k := dim(g), dim(g)
		return matGen("MulT", M{}, g, []int{k, r}, []int{k, 1})
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.MulT(xs[0], xs[1]) }},
	{"Affine", func(g *gen) opCase {
		r, c, n := dim(g), 1, 1+g.r.Intn(3)
		if g.r.Intn(3) == 0 {
			c = dim(g)
		}
		shs := [][]int{{r, c}}
		for i := 0; i < n; i++ {
			k := 1 + g.r.Intn(3)
			shs = append(shs, []int{r, k}, []int{k, c})
		}
		return matGen("Affine", M{}, g, shs...)
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.Affine(xs[0], xs[1], xs[2], xs[3:]...) }},
	vecOp("Softmax", ag.Softmax), vecOp("LogSoftmax", ag.LogSoftmax), vecOp("SparseMax", ag.SparseMax), vecOp("SparseMaxLoss", ag.SparseMaxLoss),
	{"LogSumExp", func(g *gen) opCase {
		if g.r.Intn(2) == 0 {
			return matGen("LogSumExp", M{}, g, g.vecShape())
		}
		shs := [][]int{{1, 1}, {1, 1}}
		for i := g.up(4); i > 0; i-- {
			shs = append(shs, []int{1, 1})
		}
		c := matGen("LogSumExp", M{}, g, shs...)
		allNegative(g, &c)
		return c
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.LogSumExp(xs...) }},
	nary("Sum", func(xs []mat.Tensor) mat.Tensor { return ag.Sum(xs...) }), nary("Mean", ag.Mean),
	nary("Maximum", ag.Maximum), nary("Minimum", ag.Minimum),
	{"BiLinear", func(g *gen) opCase {
		a, b := dim(g), dim(g)
		return matGen("BiLinear", M{}, g, []int{a, b}, []int{a, 1}, []int{b, 1})
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.BiLinear(xs[0], xs[1], xs[2]) }},
	{"BiAffine", func(g *gen) opCase {
		a, b := dim(g), dim(g)
		return matGen("BiAffine", M{}, g, []int{a, b}, []int{a, 1}, []int{b, 1}, []int{1, 1}, []int{a, 1}, []int{b, 1})
	}, func(p M, xs []mat.Tensor) mat.Tensor { return ag.BiAffine(xs[0], xs[1], xs[2], xs[3], xs[4], xs[5]) }},
}

func allNegative(g *gen, c *opCase) {
	if g.r.Intn(2) == 0 {
		for i := range c.v {
			for j := range c.v[i] {
				c.v[i][j] -= 4
			}
		}
	}
}

func vecOp(name string, f func(mat.Tensor) mat.Tensor) opDef {
	return opDef{name, func(g *gen) opCase {
		c := matGen(name, M{}, g, g.vecShape())
		if g.r.Intn(4) == 0 { // small spread or far from zero
			k := []float64{0.1, 0.3, 10, 100}[g.r.Intn(4)]
			if name == "LogSoftmax" && k > 10 { // defined as Log(Softmax(x)), which underflows
				k = 10
			}
			for j := range c.v[0] {
				c.v[0][j] *= k
			}
		}
		allNegative(g, &c)
		return c
	}, func(p M, xs []mat.Tensor) mat.Tensor { return f(xs[0]) }}
}

func nary(name string, f func(xs []mat.Tensor) mat.Tensor) opDef {
	return opDef{name, func(g *gen) opCase {
		n := 1 + g.up(4)
		sh := []int{1 + g.r.Intn(3), 1 + g.r.Intn(3)}
		var shs [][]int
		for i := 0; i < n; i++ {
			shs = append(shs, append([]int{}, sh...))
		}
		return matGen(name, M{}, g, shs...)
	}, func(p M, xs []mat.Tensor) mat.Tensor { return f(xs) }}
}

func init() {
	commands["ops-fwd"] = func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) { runOpFwd(c, r, &opTable[(i/c.Of)%len(opTable)]) })
	}
	commands["ops-bwd"] = func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) { runOpBwd(c, r, &opTable[(i/c.Of)%len(opTable)]) })
	}
}

// smooth operators may be given one tensor as several of their operands.
var smooth = map[string]bool{"Add": true, "Sub": true, "Prod": true, "Div": true, "Dot": true, "Concat": true, "Stack": true,
	"Mul": true, "MulT": true, "Affine": true, "Sum": true, "Mean": true, "AppendRows": true, "BiLinear": true, "BiAffine": true,
	"LogSumExp": true, "AddScalar": true, "SubScalar": true, "ReverseSub": true, "ProdScalar": true, "DivScalar": true, "SwishB": true}

// tame operators are differentiable wherever they are defined; the number of
// leading operands whose values are free is given.
var tame = map[string]int{"Cos": 1, "Exp": 1, "GELU": 1, "Copy": 1, "Mish": 1, "Neg": 1, "Sigmoid": 1, "SiLU": 1, "Swish": 1, "Sin": 1,
	"Square": 1, "Tanh": 1, "ReverseSubOne": 1, "SwishB": 2, "AddScalar": 2, "SubScalar": 2, "ReverseSub": 2, "ProdScalar": 2,
	"DivScalar": 1, "Add": 2, "Sub": 2, "Prod": 2, "Div": 1, "Dot": 2, "AppendRows": 99, "At": 1, "AtVec": 1, "ColView": 1, "RowView": 1,
	"Concat": 99, "Flatten": 1, "Reshape": 1, "Slice": 1, "SplitVec": 1, "Stack": 99, "T": 1, "RotateR": 1, "ReduceMean": 1, "ReduceSum": 1,
	"Mul": 2, "MulT": 2, "Affine": 99, "Softmax": 1, "LogSoftmax": 1, "LogSumExp": 99, "Sum": 99, "Mean": 99, "BiLinear": 99, "BiAffine": 99}

// total operators have a value everywhere, also where they have no derivative.
var total = map[string]int{"Abs": 1, "HardSigmoid": 1, "HardTanh": 1, "ReLU": 1, "Softsign": 1, "Sqrt": 0, "PositiveELU": 1, "CELU": 1, "ELU": 1,
	"LeakyReLU": 1, "SELU": 1, "SoftPlus": 1, "SoftShrink": 1, "Threshold": 1, "Max": 2, "Min": 2, "MaxPooling": 1, "ReduceMax": 1, "ScalarMax": 99,
	"SparseMax": 1, "SparseMaxLoss": 1, "Maximum": 99, "Minimum": 99}

// moving operators only move values, or choose among them, whatever these are.
var moving = map[string]bool{"Copy": true, "Neg": true, "AppendRows": true, "At": true, "AtVec": true, "ColView": true, "RowView": true, "Concat": true,
	"Flatten": true, "Reshape": true, "Slice": true, "SplitVec": true, "Stack": true, "T": true, "RotateR": true,
	"Abs": true, "ReLU": true, "Max": true, "Min": true, "MaxPooling": true, "ReduceMax": true, "ScalarMax": true, "Maximum": true, "Minimum": true}

// shifted operators depend on the differences of the values only, up to the shift.
var shifted = map[string]bool{"Softmax": true, "LogSoftmax": true, "LogSumExp": true}

// spice puts special values into the operands of some cases.
func spice(r *rand.Rand, oc *opCase, fwd bool) {
	n := tame[oc.op]
	if n == 0 && fwd {
		n = total[oc.op]
	}
	if n == 0 || r.Intn(3) > 0 {
		return
	}
	shift := []float64{-1e4, -3000, -200, 200, 3000, 1e4}[r.Intn(6)]
	for i := 0; i < n && i < len(oc.v); i++ {
		v := oc.v[i]
		if len(v) == 0 {
			continue
		}
		switch r.Intn(5) {
		case 0: // all elements are the same
			k := []float64{0, 0, 0, 1, -1, v[0]}[r.Intn(6)]
			for j := range v {
				v[j] = k
			}
		case 1: // some are special
			for j := range v {
				if r.Intn(2) == 0 {
					v[j] = []float64{0, 0, 1, -1, 2, 0.5}[r.Intn(6)]
				}
			}
		case 2: // a single one is not zero
			j := r.Intn(len(v))
			for k := range v {
				if k != j {
					v[k] = 0
				}
			}
		case 3:
			if moving[oc.op] {
				k := []float64{1e-30, 1e30, 1e-12, 1e12}[r.Intn(4)]
				for j := range v {
					v[j] *= k
				}
			}
			if shifted[oc.op] {
				for j := range v {
					v[j] += shift
				}
			}
		}
	}
}

// operands of one execution; rep[i] is the first of the operands that operand i
// is identified with.
type operands struct {
	n        int
	rep      []int
	rg, isop []bool
	leaves   []mat.Matrix
	xs       []mat.Tensor
	before   []Mx
}

func newOperands(r *rand.Rand, dt string, oc opCase, allRg bool) *operands {
	n := len(oc.sh)
	o := &operands{n: n, rep: make([]int, n), rg: make([]bool, n), isop: make([]bool, n)}
	dup := smooth[oc.op] && r.Intn(3) == 0
	for i := n - 1; i >= 0; i-- {
		o.rep[i] = i
		for j := i + 1; j < n && dup; j++ {
			if oc.sh[i][0] == oc.sh[j][0] && oc.sh[i][1] == oc.sh[j][1] && r.Intn(3) > 0 {
				o.rep[i] = o.rep[j]
				oc.v[i] = append([]float64{}, oc.v[j]...)
			}
		}
		oc.v[i] = round(dt, oc.v[i])
		o.rg[i] = allRg || r.Intn(2) == 0
		o.isop[i] = r.Intn(2) == 0
		if o.rep[i] != i {
			o.rg[i] = o.rg[o.rep[i]]
		}
	}
	return o
}

func (o *operands) make(r *rand.Rand, dt string, oc opCase) {
	o.leaves = make([]mat.Matrix, o.n)
	o.xs = make([]mat.Tensor, o.n)
	o.before = make([]Mx, o.n)
	for i := o.n - 1; i >= 0; i-- {
		if j := o.rep[i]; j != i {
			o.leaves[i] = o.leaves[j]
		} else {
			o.leaves[i] = newMat(dt, oc.sh[i], oc.v[i], o.rg[i])
		}
		o.before[i] = snap(o.leaves[i])
		o.xs[i] = o.leaves[i]
		if o.isop[i] {
			o.xs[i] = wrapOp(o.leaves[i], r.Intn(2) == 0)
		}
		if j := o.rep[i]; j != i && r.Intn(4) > 0 {
			o.xs[i] = o.xs[j]
		}
	}
}

func (o *operands) intact() bool {
	for i := range o.xs {
		if !same(o.before[i], snap(o.leaves[i])) || !same(o.before[i], snap(o.xs[i].Value())) {
			return false
		}
	}
	return true
}

func (o *operands) recs(r *rand.Rand, oc opCase) []M {
	most := 60
	for _, v := range oc.v {
		if len(v) > 30 {
			most = 1 + 20/len(oc.v)
		}
	}
	xs := make([]M, len(oc.sh))
	for i := range oc.sh {
		n := len(oc.v[i])
		chk := r.Perm(n)[:min(n, most)] // the elements whose gradient is compared
		xs[i] = M{"sh": oc.sh[i], "v": Fs(oc.v[i]), "rg": o.rg[i], "isop": o.isop[i], "rep": o.rep[i] + 1, "chk": inc(chk)}
	}
	return xs
}

func runOpFwd(c *Ctx, r *rand.Rand, d *opDef) {
	g := &gen{r: r, wide: r.Intn(16) == 0}
	dt := g.dtype()
	oc := d.gen(g)
	spice(r, &oc, true)
	o := newOperands(r, dt, oc, false)
	rec := M{"mode": "fwd", "op": oc.op, "key": "fwd/" + oc.op, "dt": dt, "p": oc.p, "xs": o.recs(r, oc)}
	c.Begin(rec)
	intact, isolated := true, true
	var y Mx
	rec["outcome"] = guarded(func() {
		o.make(r, dt, oc)
		xs := o.xs
		out := d.run(oc.p, xs)
		y = snap(out.Value())
		intact = o.intact()
		// a later change of the result must not reach the operands ...
		ym := out.Value().(mat.Matrix)
		if len(xs) > 0 && out != xs[0] {
			ym.AddScalarInPlace(1)
			ym.ReshapeInPlace(ym.Size(), 1)
			isolated = o.intact()
			// ... nor the other way round
			now := snap(ym)
			for i := range xs {
				xm := xs[i].Value().(mat.Matrix)
				xm.AddScalarInPlace(1)
				xm.ReshapeInPlace(1, xm.Size())
			}
			isolated = isolated && same(now, snap(ym))
		}
	})
	rec["y"], rec["intact"], rec["isolated"] = y, intact, isolated
	c.Emit(rec)
}

func runOpBwd(c *Ctx, r *rand.Rand, d *opDef) {
	g := &gen{r: r, wide: r.Intn(16) == 0}
	dt := g.dtype()
	oc := d.gen(g)
	spice(r, &oc, false)
	n := len(oc.sh)
	o := newOperands(r, dt, oc, r.Intn(3) == 0)
	key := "bwd/" + oc.op
	if oc.op == "AppendRows" {
		for i := 1; i < n; i++ {
			if o.rg[i] && oc.sh[i][0] > 1 {
				key = "bwd/AppendRows/column-operand"
			}
		}
	}
	rec := M{"mode": "bwd", "op": oc.op, "key": key, "dt": dt, "p": oc.p, "xs": o.recs(r, oc)}
	c.Begin(rec)
	intact := true
	var gy Mx
	yrg := false
	gx := make([]gradRec, n)
	rec["outcome"] = guarded(func() {
		o.make(r, dt, oc)
		out := d.run(oc.p, o.xs)
		ysh := out.Value().Shape()
		yrg = out.RequiresGrad()
		gvals := round(dt, g.uni(out.Value().Size()))
		seed := newMat(dt, ysh, gvals, false)
		gy = snap(seed)
		if yrg {
			out.AccGrad(seed)
			if err := ag.Backward(out); err != nil {
				panic(err)
			}
		}
		for i := range o.leaves {
			gx[i] = gradOf(o.leaves[i])
		}
		intact = o.intact() && same(gy, snap(seed))
		if _, isOperator := out.(*ag.Operator); isOperator && yrg {
			intact = intact && out.HasGrad() && same(gy, snap(out.Grad()))
		}
	})
	rec["gy"], rec["gx"], rec["yrg"], rec["intact"] = gy, gx, yrg, intact
	c.Emit(rec)
}
