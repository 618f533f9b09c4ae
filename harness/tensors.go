package main

import (
	"math/rand"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// Mx is the recorded form of a matrix.
type Mx struct {
	Sh []int `json:"sh"`
	V  []F   `json:"v"`
}

func snap(t mat.Tensor) Mx {
	sh := append([]int{}, t.Shape()...)
	return Mx{Sh: sh, V: Fs(append([]float64{}, t.Data().F64()...))}
}

func same(a, b Mx) bool {
	if len(a.Sh) != len(b.Sh) || len(a.V) != len(b.V) {
		return false
	}
	for i := range a.Sh {
		if a.Sh[i] != b.Sh[i] {
			return false
		}
	}
	for i := range a.V {
		if a.V[i] != b.V[i] && !(a.V[i] != a.V[i] && b.V[i] != b.V[i]) {
			return false
		}
	}
	return true
}

// newMat builds a matrix of the given element type.
func newMat(dt string, sh []int, vs []float64, rg bool) mat.Matrix {
	s := append([]int{}, sh...)
	if dt == "f32" {
		d := make([]float32, len(vs))
		for i, v := range vs {
			d[i] = float32(v)
		}
		return mat.NewDense[float32](mat.WithShape(s...), mat.WithBacking(d), mat.WithGrad(rg))
	}
	return mat.NewDense[float64](mat.WithShape(s...), mat.WithBacking(append([]float64{}, vs...)), mat.WithGrad(rg))
}

// round32 rounds values to the precision of the element type.
func round(dt string, vs []float64) []float64 {
	out := make([]float64, len(vs))
	for i, v := range vs {
		if dt == "f32" {
			v = float64(float32(v))
		}
		out[i] = v
	}
	return out
}

// gradRec is the recorded form of a gradient.
type gradRec struct {
	Has bool  `json:"has"`
	Sh  []int `json:"sh"`
	V   []F   `json:"v"`
}

func gradOf(t mat.Tensor) gradRec {
	if !t.HasGrad() {
		return gradRec{Sh: []int{0, 0}, V: []F{}}
	}
	m := snap(t.Grad())
	return gradRec{Has: true, Sh: m.Sh, V: m.V}
}

// idFn is an identity operator of the harness, used to turn a leaf into an
// operand that is itself an operator.
type idFn struct{ x mat.Tensor }

func (f *idFn) Operands() []mat.Tensor { return []mat.Tensor{f.x} }
func (f *idFn) Forward() (mat.Tensor, error) {
	return f.x.Value().(mat.Matrix).Clone(), nil
}
func (f *idFn) Backward(gy mat.Tensor) error {
	if f.x.RequiresGrad() {
		f.x.AccGrad(gy)
	}
	return nil
}

func wrapOp(x mat.Tensor, async bool) mat.Tensor {
	return ag.NewOperator(&idFn{x}).Run(async)
}

// gen makes values for operands.
type gen struct {
	r    *rand.Rand
	dt   string
	wide bool // sizes may be large
	long bool // there may be many inputs
}

// up is a size below n, or a larger one in a wide case.
func (g *gen) up(n int) int {
	if g.wide && g.r.Intn(2) == 0 {
		return g.r.Intn(6 * n)
	}
	return g.r.Intn(n)
}

func (g *gen) dtype() string {
	if g.r.Intn(2) == 0 {
		return "f32"
	}
	return "f64"
}

// grid returns n pairwise different values in [-3,3) that keep a distance of
// at least 0.02 from every multiple of 0.1 and from each other (for up to 60 values).
func (g *gen) grid(n int, lo, hi int) []float64 {
	slots := g.r.Perm(hi - lo)
	out := make([]float64, n)
	if n > len(slots) { // several values in a slot
		m := (n + len(slots) - 1) / len(slots)
		for i := range out {
			out[i] = float64(slots[i%len(slots)]+lo)*0.1 + 0.02 + 0.06*(float64(i/len(slots))+0.5)/float64(m)
		}
		return out
	}
	for i := range out {
		k := slots[i%len(slots)] + lo
		out[i] = float64(k)*0.1 + 0.05 + (g.r.Float64()-0.5)*0.06
	}
	return out
}

func (g *gen) any(n int) []float64 { return g.grid(n, -30, 30) }
func (g *gen) pos(n int) []float64 { return g.grid(n, 1, 30) }
func (g *gen) uni(n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = g.r.Float64()*4 - 2
	}
	return out
}

// nonzero returns values with absolute value at least 0.3.
func (g *gen) nonzero(n int) []float64 {
	out := g.grid(n, 3, 30)
	for i := range out {
		if g.r.Intn(2) == 0 {
			out[i] = -out[i]
		}
	}
	return out
}

func (g *gen) shape() []int {
	switch g.r.Intn(6) {
	case 0:
		return []int{1, 1}
	case 1:
		return []int{1 + g.up(6)*(1+g.up(2)), 1}
	case 2:
		return []int{1, 1 + g.up(6)*(1+g.up(2))}
	default:
		return []int{1 + g.up(4), 1 + g.up(4)}
	}
}

func (g *gen) vecShape() []int {
	n := 1 + g.up(7)
	if g.r.Intn(2) == 0 {
		return []int{1, n}
	}
	return []int{n, 1}
}

func size(sh []int) int { return sh[0] * sh[1] }
