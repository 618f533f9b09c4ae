package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
)

// matState is the recorded form of one matrix of the pool.
type matState struct {
	ID int     `json:"id"`
	DT string  `json:"dt"`
	Sh []int   `json:"sh"`
	V  []F     `json:"v"`
	RG bool    `json:"rg"`
	G  gradRec `json:"g"`
}

func matDT(m mat.Tensor) string {
	if _, ok := m.(*mat.Dense[float32]); ok {
		return "f32"
	}
	return "f64"
}

func stateOf(id int, m mat.Matrix) matState {
	s := snap(m)
	return matState{ID: id, DT: matDT(m), Sh: s.Sh, V: s.V, RG: m.RequiresGrad(), G: gradOf(m)}
}

func sameBits(a, b []F) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(float64(a[i])) != math.Float64bits(float64(b[i])) {
			return false
		}
	}
	return true
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameState(a, b matState) bool {
	return a.DT == b.DT && sameInts(a.Sh, b.Sh) && sameBits(a.V, b.V) && a.RG == b.RG && a.G.Has == b.G.Has && sameInts(a.G.Sh, b.G.Sh) && sameBits(a.G.V, b.G.V)
}

// pool is a set of matrices under a history of operations.
type pool struct {
	r     *rand.Rand
	ms    []mat.Matrix
	st    []matState
	steps []M
	mode  string  // int, real, pos, wild, near, scaled, same, sparse
	scale float64 // scaled, same: the common factor
	grown bool    // backing slices have spare capacity
}

func (p *pool) add(m mat.Matrix) int {
	p.ms = append(p.ms, m)
	p.st = append(p.st, stateOf(len(p.ms), m))
	return len(p.ms)
}

func (p *pool) val() float64 {
	r := p.r
	switch p.mode {
	case "int":
		return float64(r.Intn(17) - 8)
	case "pos":
		return 0.1 + 3*r.Float64()
	case "scaled": // all of one (very small or large) magnitude
		return p.scale * (r.Float64()*6 - 3)
	case "same":
		return p.scale
	case "sparse":
		return []float64{0, 0, 0, 1, math.Copysign(0, -1), -1}[r.Intn(6)]
	case "near": // neighbours, far from zero
		return 3 + float64(r.Intn(5)-2)*math.Ldexp(1, -22+2*r.Intn(5))
	case "wild":
		switch r.Intn(12) {
		case 0:
			return 0
		case 1:
			return math.Copysign(0, -1)
		case 2:
			return math.Inf(1)
		case 3:
			return math.Inf(-1)
		case 4:
			return float64(r.Intn(401) - 200)
		case 5:
			return (r.Float64() - 0.5) * 1e30
		case 6:
			return (r.Float64() - 0.5) * 1e-20
		case 7:
			return float64(r.Intn(2)*2 - 1)
		default:
			return (r.Float64() - 0.5) * 160
		}
	}
	return r.Float64()*6 - 3
}

func (p *pool) vals(n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = p.val()
	}
	return out
}

// fresh makes a matrix; its backing slice may have spare capacity holding other values.
func (p *pool) fresh(dt string, sh []int, rg bool) mat.Matrix {
	n := sh[0] * sh[1]
	extra := 0
	if p.grown && p.r.Intn(2) == 0 {
		extra = 1 + p.r.Intn(4)
	}
	vs := p.vals(n + extra)
	s := append([]int{}, sh...)
	if dt == "f32" {
		d := make([]float32, n+extra)
		for i, v := range vs {
			d[i] = float32(v)
		}
		return mat.NewDense[float32](mat.WithShape(s...), mat.WithBacking(d[:n]), mat.WithGrad(rg))
	}
	return mat.NewDense[float64](mat.WithShape(s...), mat.WithBacking(vs[:n]), mat.WithGrad(rg))
}

// step performs an operation and records what it did.
func (p *pool) step(c *Ctx, key string, op string, dt string, xs []int, is []int, ns []float64, more M, fn func() (res []mat.Matrix, nums []float64, self bool)) {
	if is == nil {
		is = []int{}
	}
	rec := M{"op": op, "dt": dt, "xs": xs, "is": is, "ns": Fs(ns), "has": false, "rg": false}
	for k, v := range more {
		rec[k] = v
	}
	if len(p.steps) == 0 || c != nil {
		c.Begin(M{"key": key, "op": op, "xs": xs, "is": is})
	}
	var res []mat.Matrix
	var nums []float64
	self := true
	out := guarded(func() { res, nums, self = fn() })
	if out != "ok" {
		res, nums = nil, nil
	}
	changed := []matState{}
	for i, m := range p.ms {
		s := stateOf(i+1, m)
		if !sameState(s, p.st[i]) {
			changed = append(changed, s)
			p.st[i] = s
		}
	}
	news := []matState{}
	for _, m := range res {
		id := p.add(m)
		news = append(news, p.st[id-1])
	}
	rec["out"], rec["new"], rec["nums"], rec["self"], rec["changed"] = out, news, Fs(nums), self, changed
	p.steps = append(p.steps, rec)
}

func one(m mat.Matrix) ([]mat.Matrix, []float64, bool) { return []mat.Matrix{m}, nil, true }

func applyFn(r, q int, v float64) float64 { return 2*v + float64(r+10*q) }
func applyAlpha(r, q int, v float64, as ...float64) float64 {
	s := 0.0
	for _, a := range as {
		s += a
	}
	return v*as[0] + s + float64(r+10*q)
}

func b01(b bool) []float64 {
	if b {
		return []float64{1}
	}
	return []float64{0}
}

var mathFns = []string{"Abs", "Tanh", "Exp", "Cos", "Sin", "Cosh", "Sinh", "Max", "F32", "Data32", "Ceil", "Floor", "Round", "Tan", "Sqrt", "Log", "Pow"}

// mathFn applies a function of package mat to numbers.
func mathFn[T float.DType](name string, vs []T, q T) []float64 {
	out := make([]float64, len(vs))
	if name == "Data32" {
		m := mat.NewDense[T](mat.WithBacking(vs))
		for i, v := range mat.Data[float32](m) {
			out[i] = float64(v)
		}
		return out
	}
	for i, x := range vs {
		var y T
		switch name {
		case "Abs":
			y = mat.Abs(x)
		case "Tanh":
			y = mat.Tanh(x)
		case "Exp":
			y = mat.Exp(x)
		case "Cos":
			y = mat.Cos(x)
		case "Sin":
			y = mat.Sin(x)
		case "Tan":
			y = mat.Tan(x)
		case "Cosh":
			y = mat.Cosh(x)
		case "Sinh":
			y = mat.Sinh(x)
		case "Sqrt":
			y = mat.Sqrt(x)
		case "Log":
			y = mat.Log(x)
		case "Ceil":
			y = mat.Ceil(x)
		case "Floor":
			y = mat.Floor(x)
		case "Round":
			y = mat.Round(x)
		case "Max":
			y = mat.Max(x, q)
		case "Pow":
			y = mat.Pow(x, q)
		case "F32":
			out[i] = float64(float.Interface(x).F32())
			if float.ValueOf[T](float.Interface(x)) != x || float.Interface(x).F64() != float64(x) {
				out[i] = math.NaN()
			}
			continue
		}
		out[i] = float64(y)
	}
	return out
}

// do performs the named operation with receiver xs[0] and further operands.
func (p *pool) do(c *Ctx, key, op string, dt string, xs []int, is []int, ns []float64, more M) {
	var a, b mat.Matrix
	var rest []mat.Matrix
	for k, x := range xs {
		switch k {
		case 0:
			a = p.ms[x-1]
		case 1:
			b = p.ms[x-1]
		}
		if k > 0 {
			rest = append(rest, p.ms[x-1])
		}
	}
	all := append([]mat.Matrix{}, rest...)
	if a != nil {
		all = append([]mat.Matrix{a}, rest...)
		if dt == "" {
			dt = matDT(a)
		}
	}
	half := false
	if (op == "SetData" || op == "SetScalar" || op == "NewMatrix") && p.r.Intn(2) == 0 {
		half = true // the numbers come as single precision
		ns = append([]float64{}, ns...)
		for i := range ns {
			ns[i] = float64(float32(ns[i]))
		}
	}
	in := func(m mat.Matrix) ([]mat.Matrix, []float64, bool) { return nil, nil, m == a }
	num := func(v ...float64) ([]mat.Matrix, []float64, bool) { return nil, v, true }
	fn := func() ([]mat.Matrix, []float64, bool) {
		switch op {
		case "Add":
			return one(a.Add(b))
		case "Sub":
			return one(a.Sub(b))
		case "Prod":
			return one(a.Prod(b))
		case "Div":
			return one(a.Div(b))
		case "Maximum":
			return one(a.Maximum(b))
		case "Minimum":
			return one(a.Minimum(b))
		case "AddInPlace":
			return in(a.AddInPlace(b))
		case "SubInPlace":
			return in(a.SubInPlace(b))
		case "ProdInPlace":
			return in(a.ProdInPlace(b))
		case "DivInPlace":
			return in(a.DivInPlace(b))
		case "AddScalar":
			return one(a.AddScalar(ns[0]))
		case "SubScalar":
			return one(a.SubScalar(ns[0]))
		case "ProdScalar":
			return one(a.ProdScalar(ns[0]))
		case "AddScalarInPlace":
			return in(a.AddScalarInPlace(ns[0]))
		case "SubScalarInPlace":
			return in(a.SubScalarInPlace(ns[0]))
		case "ProdScalarInPlace":
			return in(a.ProdScalarInPlace(ns[0]))
		case "ProdMatrixScalarInPlace":
			return in(a.ProdMatrixScalarInPlace(b, ns[0]))
		case "Abs":
			return one(a.Abs())
		case "Pow":
			return one(a.Pow(ns[0]))
		case "Sqrt":
			return one(a.Sqrt())
		case "Log":
			return one(a.Log())
		case "Exp":
			return one(a.Exp())
		case "Sigmoid":
			return one(a.Sigmoid())
		case "Clone":
			return one(a.Clone())
		case "ZerosLike":
			return one(a.ZerosLike())
		case "OnesLike":
			return one(a.OnesLike())
		case "ExtractRow":
			return one(a.ExtractRow(is[0]))
		case "ExtractColumn":
			return one(a.ExtractColumn(is[0]))
		case "Slice":
			return one(a.Slice(is[0], is[1], is[2], is[3]))
		case "Reshape":
			sh := append([]int{}, is...)
			m := a.Reshape(sh...)
			for i := range sh {
				sh[i] = 77
			}
			return one(m)
		case "ReshapeInPlace":
			sh := append([]int{}, is...)
			m := a.ReshapeInPlace(sh...)
			for i := range sh {
				sh[i] = 77
			}
			return in(m)
		case "Flatten":
			return one(a.Flatten())
		case "FlattenInPlace":
			return in(a.FlattenInPlace())
		case "ResizeVector":
			return one(a.ResizeVector(is[0]))
		case "T":
			return one(a.T())
		case "TransposeInPlace":
			return in(a.TransposeInPlace())
		case "Mul":
			return one(a.Mul(b))
		case "MulT":
			return one(a.MulT(b))
		case "DotUnitary":
			return one(a.DotUnitary(b))
		case "Sum":
			return one(a.Sum())
		case "Max":
			return one(a.Max())
		case "Min":
			return one(a.Min())
		case "Softmax":
			return one(a.Softmax())
		case "CumSum":
			return one(a.CumSum())
		case "Range":
			return one(a.Range(is[0], is[1]))
		case "SplitV":
			return a.SplitV(append([]int{}, is...)...), nil, true
		case "Augment":
			return one(a.Augment())
		case "SwapInPlace":
			return in(a.SwapInPlace(is[0], is[1]))
		case "PadRows":
			return one(a.PadRows(is[0]))
		case "PadColumns":
			return one(a.PadColumns(is[0]))
		case "AppendRows":
			return one(a.AppendRows(rest...))
		case "ConcatV":
			if p.r.Intn(2) == 0 && a != nil && matDT(a) == dt {
				return one(a.NewConcatV(all...))
			}
			if dt == "f32" {
				return one(mat.ConcatV[float32](all...))
			}
			return one(mat.ConcatV[float64](all...))
		case "Stack":
			if p.r.Intn(2) == 0 && a != nil && matDT(a) == dt {
				return one(a.NewStack(all...))
			}
			if dt == "f32" {
				return one(mat.Stack[float32](all...))
			}
			return one(mat.Stack[float64](all...))
		case "Norm":
			return one(a.Norm(ns[0]))
		case "Normalize2":
			return one(a.Normalize2())
		case "Apply":
			return one(a.Apply(applyFn))
		case "ApplyInPlace":
			return in(a.ApplyInPlace(applyFn, b))
		case "ApplyWithAlpha":
			return one(a.ApplyWithAlpha(applyAlpha, append([]float64{}, ns...)...))
		case "ApplyWithAlphaInPlace":
			return in(a.ApplyWithAlphaInPlace(applyAlpha, b, append([]float64{}, ns...)...))
		case "ClipInPlace":
			return in(a.ClipInPlace(ns[0], ns[1]))
		case "Copy":
			a.Copy(b)
			return nil, nil, true
		case "Zeros":
			a.Zeros()
			return nil, nil, true
		case "SetData":
			// the given slice is copied: changing it afterwards is of no consequence
			if half {
				d := make([]float32, len(ns))
				for i, v := range ns {
					d[i] = float32(v)
				}
				if p.r.Intn(2) == 0 {
					mat.SetData(a, d)
				} else {
					a.SetData(float.Make(d...))
				}
				for i := range d {
					d[i] = 99
				}
				return nil, nil, true
			}
			d := append([]float64{}, ns...)
			a.SetData(float.Make(d...))
			for i := range d {
				d[i] = 99
			}
			return nil, nil, true
		case "DataWrite":
			if len(ns) != a.Size() {
				panic("wrong number of values")
			}
			switch d := a.(type) {
			case *mat.Dense[float32]:
				s := mat.Data[float32](d)
				for i, v := range ns {
					s[i] = float32(v)
				}
			case *mat.Dense[float64]:
				s := mat.Data[float64](d)
				for i, v := range ns {
					s[i] = v
				}
			}
			return nil, nil, true
		case "SetScalar":
			if half {
				a.SetScalar(float.Interface(float32(ns[0])), is...)
			} else {
				a.SetScalar(float.Interface(ns[0]), is...)
			}
			return nil, nil, true
		case "SetAt":
			a.SetAt(b, is...)
			return nil, nil, true
		case "At":
			return one(a.At(is...).(mat.Matrix))
		case "ScalarAt":
			return num(a.ScalarAt(is...).F64())
		case "Item":
			return num(a.Item().F64())
		case "ArgMax":
			return num(float64(a.ArgMax()))
		case "DoNonZero":
			var out []float64
			a.DoNonZero(func(r, q int, v float64) { out = append(out, float64(r), float64(q), v) })
			return num(out...)
		case "DoVecNonZero":
			var out []float64
			a.DoVecNonZero(func(i int, v float64) { out = append(out, float64(i), v) })
			return num(out...)
		case "Equal":
			return num(b01(mat.Equal(a, b))...)
		case "InDelta":
			return num(b01(mat.InDelta(a, b, ns[0]))...)
		case "SameDims":
			return num(b01(mat.SameDims(a, b))...)
		case "IsVector":
			return num(b01(mat.IsVector(a))...)
		case "IsScalar":
			return num(b01(mat.IsScalar(a))...)
		case "Size":
			return num(float64(a.Size()), float64(a.Shape()[0]), float64(a.Shape()[1]))
		case "NewScalar":
			return one(a.NewScalar(ns[0], mat.WithGrad(more["rg"].(bool))))
		case "NewMatrix":
			var opts []mat.OptionsFunc
			sh := append([]int{}, is...)
			if len(is) > 0 {
				opts = append(opts, mat.WithShape(sh...))
			}
			if more["has"].(bool) {
				if half {
					d := make([]float32, len(ns))
					for i, v := range ns {
						d[i] = float32(v)
					}
					opts = append(opts, mat.WithBacking(d))
				} else {
					opts = append(opts, mat.WithBacking(append([]float64{}, ns...)))
				}
			}
			opts = append(opts, mat.WithGrad(more["rg"].(bool)))
			m := a.NewMatrix(opts...)
			for i := range sh {
				sh[i] = 55
			}
			return one(m)
		case "Identity":
			if dt == "f32" {
				return one(mat.NewDense[float32](mat.WithShape(is[0], is[0]), mat.WithBacking(mat.CreateIdentityMatrix[float32](is[0]))))
			}
			return one(mat.NewDense[float64](mat.WithShape(is[0], is[0]), mat.WithBacking(mat.CreateIdentityMatrix[float64](is[0]))))
		case "OneHot":
			if dt == "f32" {
				return one(mat.NewDense[float32](mat.WithBacking(mat.CreateOneHotVector[float32](is[0], is[1]))))
			}
			return one(mat.NewDense[float64](mat.WithBacking(mat.CreateOneHotVector[float64](is[0], is[1]))))
		case "InitSlice":
			if dt == "f32" {
				return one(mat.NewDense[float32](mat.WithBacking(mat.CreateInitializedSlice(is[0], float32(ns[0])))))
			}
			return one(mat.NewDense[float64](mat.WithBacking(mat.CreateInitializedSlice(is[0], ns[0]))))
		case "InitMatrix":
			if dt == "f32" {
				return one(mat.NewDense[float32](mat.WithShape(is...), mat.WithBacking(mat.InitializeMatrix(is[0], is[1], func(r, q int) float32 {
					return float32(applyFn(r, q, float64(float32(ns[0]))))
				}))))
			}
			return one(mat.NewDense[float64](mat.WithShape(is...), mat.WithBacking(mat.InitializeMatrix(is[0], is[1], func(r, q int) float64 { return applyFn(r, q, ns[0]) }))))
		case "MathFn":
			if matDT(a) == "f32" {
				return num(mathFn(more["fn"].(string), mat.Data[float32](a), float32(ns[0]))...)
			}
			return num(mathFn(more["fn"].(string), mat.Data[float64](a), ns[0])...)
		case "AccGrad":
			a.AccGrad(b)
			return nil, nil, true
		case "ZeroGrad":
			a.ZeroGrad()
			return nil, nil, true
		case "SetRequiresGrad":
			a.SetRequiresGrad(more["rg"].(bool))
			return nil, nil, true
		}
		panic("HARNESS: unknown operation " + op)
	}
	p.step(c, key, op, dt, xs, is, ns, more, fn)
}

var matOpNames = []string{"Add", "Sub", "Prod", "Div", "Maximum", "Minimum", "AddInPlace", "SubInPlace", "ProdInPlace", "DivInPlace",
	"AddScalar", "SubScalar", "ProdScalar", "AddScalarInPlace", "SubScalarInPlace", "ProdScalarInPlace", "ProdMatrixScalarInPlace",
	"Abs", "Pow", "Sqrt", "Log", "Exp", "Sigmoid", "Clone", "ZerosLike", "OnesLike", "ExtractRow", "ExtractColumn", "Slice", "Reshape",
	"ReshapeInPlace", "Flatten", "FlattenInPlace", "ResizeVector", "T", "TransposeInPlace", "Mul", "Mul", "Mul", "MulT", "MulT", "DotUnitary", "Sum", "Max", "Min",
	"Softmax", "CumSum", "Range", "SplitV", "Augment", "SwapInPlace", "PadRows", "PadColumns", "AppendRows", "ConcatV", "Stack", "Norm",
	"Normalize2", "Apply", "ApplyInPlace", "ApplyWithAlpha", "ApplyWithAlphaInPlace", "ClipInPlace", "Copy", "Zeros", "SetData", "DataWrite",
	"SetScalar", "SetAt", "At", "ScalarAt", "Item", "ArgMax", "DoNonZero", "DoVecNonZero", "Equal", "InDelta", "SameDims", "IsVector",
	"IsScalar", "Size", "NewScalar", "NewMatrix", "Identity", "OneHot", "InitSlice", "InitMatrix", "AccGrad", "ZeroGrad", "SetRequiresGrad", "MathFn"}

var sameDimOps = set("Add", "Sub", "Prod", "Div", "Maximum", "Minimum", "AddInPlace", "SubInPlace", "ProdInPlace", "DivInPlace",
	"ProdMatrixScalarInPlace", "ApplyInPlace", "ApplyWithAlphaInPlace", "Copy", "DotUnitary", "AccGrad", "Equal", "InDelta", "SameDims")
var scalarOps = set("AddScalar", "SubScalar", "ProdScalar", "AddScalarInPlace", "SubScalarInPlace", "ProdScalarInPlace", "ProdMatrixScalarInPlace", "SetScalar", "NewScalar", "InitSlice", "InitMatrix")
var vecOps = set("ArgMax", "Softmax", "CumSum", "Range", "SplitV", "Norm", "Normalize2", "DoVecNonZero", "ResizeVector")

// operations whose definition is delicate at infinities and NaN
var tameOps = set("Softmax", "Norm", "Normalize2", "Mul", "MulT", "DotUnitary", "Sum", "CumSum", "Max", "Min", "ArgMax", "Maximum", "Minimum",
	"ClipInPlace", "Equal", "InDelta", "Apply", "ApplyInPlace", "ApplyWithAlpha", "ApplyWithAlphaInPlace", "InitMatrix", "Pow", "MathFn")

func set(ss ...string) map[string]bool {
	m := map[string]bool{}
	for _, s := range ss {
		m[s] = true
	}
	return m
}

// around returns n or a value just outside or inside its neighbourhood.
func (p *pool) around(n int) int {
	switch p.r.Intn(8) {
	case 0:
		return n
	case 1:
		return n + 1
	case 2:
		return -1
	}
	if n <= 0 {
		return 0
	}
	return p.r.Intn(n)
}

// args chooses integers and reals for an operation on a.
func (p *pool) args(op string, a mat.Matrix) (is []int, ns []float64, more M) {
	r := p.r
	R, Q := a.Shape()[0], a.Shape()[1]
	n := R * Q
	bad := r.Intn(6) == 0
	near := func(n int) int {
		if bad {
			return p.around(n)
		}
		if n <= 0 {
			return 0
		}
		return r.Intn(n)
	}
	if scalarOps[op] {
		ns = p.vals(1)
	}
	switch op {
	case "Pow":
		ns = []float64{[]float64{0, 1, 2, 3, 0.5, -1}[r.Intn(6)]}
	case "MathFn": // only functions that are smooth enough where the values are
		k := len(mathFns)
		for _, v := range a.Data().F64() {
			if !(v > 0.05) {
				k = min(k, 13)
			}
			if math.Abs(v) > 1.5 {
				k = min(k, 13)
			}
			if math.Abs(v) > 60 {
				k = min(k, 10)
			}
			if math.Abs(v) > 1e4 {
				k = min(k, 2)
			}
		}
		return nil, []float64{[]float64{0, 1, 2, 3, 0.5, -1}[r.Intn(6)]}, M{"fn": mathFns[r.Intn(k)]}
	case "Norm":
		ns = []float64{[]float64{1, 2, 3, 4, 2.5}[r.Intn(5)]}
	case "InDelta":
		ns = []float64{[]float64{0, 0.5, 1, 10}[r.Intn(4)]}
	case "ClipInPlace":
		ns = p.vals(2)
		if ns[1] < ns[0] && !bad {
			ns[0], ns[1] = ns[1], ns[0]
		}
	case "ApplyWithAlpha", "ApplyWithAlphaInPlace":
		ns = p.vals(1 + r.Intn(3))
	case "SetData", "DataWrite":
		k := n
		if bad {
			k = n + r.Intn(3)
			if r.Intn(2) == 0 && n > 0 {
				k = n - 1
			}
		}
		ns = p.vals(k)
	case "ExtractRow":
		is = []int{near(R)}
	case "ExtractColumn":
		is = []int{near(Q)}
	case "SwapInPlace":
		is = []int{near(R), near(R)}
	case "ScalarAt", "At", "SetScalar", "SetAt":
		if (R == 1 || Q == 1 || bad) && r.Intn(2) == 0 {
			is = []int{near(n)}
		} else {
			is = []int{near(R), near(Q)}
		}
		if bad && r.Intn(6) == 0 {
			is = append(is, 0)
		}
	case "Slice":
		f, g := near(R), near(Q)
		t, u := f+r.Intn(R-min2(f, R)+1), g+r.Intn(Q-min2(g, Q)+1)
		if bad {
			t, u = t+r.Intn(3)-1, u+r.Intn(3)-1
		}
		is = []int{f, g, t, u}
	case "Reshape", "ReshapeInPlace":
		var ds []int
		for d := 1; d <= n; d++ {
			if n%d == 0 {
				ds = append(ds, d)
			}
		}
		if n == 0 {
			is = [][]int{{0, 3}, {2, 0}, {0, 0}, {1, 0}}[r.Intn(4)]
		} else {
			d := ds[r.Intn(len(ds))]
			is = []int{d, n / d}
		}
		if bad {
			switch r.Intn(4) {
			case 0:
				is = []int{is[0] + 1, is[1]}
			case 1:
				is = []int{-is[0], -is[1]}
			case 2:
				is = []int{n}
			case 3:
				is = append(is, 1)
			}
		}
	case "ResizeVector", "PadRows", "PadColumns":
		is = []int{r.Intn(n + 5)}
		if op != "ResizeVector" {
			is = []int{r.Intn(5)}
		}
		if bad {
			is = []int{-1}
		}
	case "Range":
		f := near(n + 1)
		t := f + r.Intn(n-min2(f, n)+1)
		if bad {
			t += r.Intn(4) - 1
		}
		is = []int{f, t}
	case "SplitV":
		left := n
		for k := r.Intn(4); k > 0; k-- {
			s := r.Intn(left + 1)
			is = append(is, s)
			left -= s
		}
		if r.Intn(2) == 0 {
			is = append(is, left)
			left = 0
		}
		if bad && len(is) > 0 {
			if r.Intn(3) == 0 {
				is[r.Intn(len(is))] = -1
			} else {
				is[len(is)-1] += left + 1 + r.Intn(2)
			}
		}
	case "NewMatrix":
		has := r.Intn(2) == 0
		sh := smallShapes[r.Intn(len(smallShapes))]
		k := sh[0] * sh[1]
		is = append([]int{}, sh...)
		if r.Intn(3) == 0 {
			is = []int{k}
		}
		if bad {
			switch r.Intn(4) {
			case 0:
				k++
			case 1:
				is = append(is, 1, 1)
			case 2:
				is[0] = -1
			case 3:
				is = nil
			}
		} else if has && r.Intn(3) == 0 {
			is = nil
		}
		if has {
			ns = p.vals(k)
		}
		return is, ns, M{"has": has, "rg": r.Intn(2) == 0}
	case "NewScalar", "SetRequiresGrad":
		return is, ns, M{"rg": r.Intn(2) == 0}
	case "Identity":
		is = []int{r.Intn(6)}
		if r.Intn(20) == 0 {
			is = []int{20 + r.Intn(40)}
		}
		if bad {
			is = []int{-1}
		}
	case "InitSlice":
		is = []int{r.Intn(6)}
		if r.Intn(20) == 0 {
			is = []int{20 + r.Intn(300)}
		}
		if bad {
			is = []int{-1}
		}
	case "OneHot":
		k := 1 + r.Intn(6)
		if r.Intn(20) == 0 {
			k = 20 + r.Intn(300)
		}
		is = []int{k, near(k)}
	case "InitMatrix":
		is = []int{r.Intn(5), r.Intn(5)}
		if r.Intn(20) == 0 {
			is = []int{r.Intn(70), r.Intn(70)}
		}
		if bad {
			is[r.Intn(2)] = -1
		}
	}
	return
}

func min2(a, b int) int {
	if a < 0 {
		return 0
	}
	if a < b {
		return a
	}
	return b
}

var smallShapes = [][]int{{1, 1}, {2, 2}, {2, 3}, {3, 2}, {1, 3}, {3, 1}, {3, 3}, {1, 2}, {2, 1}, {0, 2}, {2, 0}, {0, 1}, {1, 4}, {4, 1}}
var edges = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 23, 31, 32, 33, 40}

func (p *pool) emit(c *Ctx, key string, m0 []matState) {
	c.Emit(M{"key": key, "outcome": "ok", "m0": m0, "steps": p.steps})
}

func randDT(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		return "f32"
	}
	return "f64"
}

func init() {
	// long histories over few small matrices
	commands["mat-history"] = func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) {
			p := &pool{r: r, mode: []string{"int", "real", "real", "pos"}[r.Intn(4)], grown: r.Intn(2) == 0}
			dts := []string{randDT(r), randDT(r)}
			for k := 3 + r.Intn(3); k > 0; k-- {
				p.add(p.fresh(dts[r.Intn(2)], smallShapes[r.Intn(len(smallShapes))], r.Intn(2) == 0))
			}
			m0 := append([]matState{}, p.st...)
			key := "history/" + p.mode
			for s := 10 + r.Intn(16); s > 0; s-- {
				op := matOpNames[r.Intn(len(matOpNames))]
				if len(p.ms) >= 14 { // only operations that make no new matrix
					for !inPlaceOp(op) {
						op = matOpNames[r.Intn(len(matOpNames))]
					}
				}
				x := 1 + r.Intn(len(p.ms))
				for t := 0; vecOps[op] && t < 4 && !mat.IsVector(p.ms[x-1]); t++ {
					x = 1 + r.Intn(len(p.ms))
				}
				a := p.ms[x-1]
				is, ns, more := p.args(op, a)
				xs := []int{x}
				pick := func(ok func(m mat.Matrix) bool) int {
					var cand []int
					for k, m := range p.ms {
						if ok(m) {
							cand = append(cand, k+1)
						}
					}
					if len(cand) == 0 || r.Intn(6) == 0 {
						return 1 + r.Intn(len(p.ms))
					}
					return cand[r.Intn(len(cand))]
				}
				switch {
				case op == "AccGrad":
					y := pick(func(m mat.Matrix) bool {
						return matDT(m) == matDT(a) && (!a.HasGrad() && mat.SameDims(m, a) || a.HasGrad() && mat.SameDims(m, a.Grad()))
					})
					if matDT(p.ms[y-1]) != matDT(a) {
						continue
					}
					xs = append(xs, y)
				case sameDimOps[op]:
					xs = append(xs, pick(func(m mat.Matrix) bool { return mat.SameDims(m, a) }))
				case op == "Mul":
					xs = append(xs, pick(func(m mat.Matrix) bool { return m.Shape()[0] == a.Shape()[1] }))
				case op == "MulT":
					xs = append(xs, pick(func(m mat.Matrix) bool { return m.Shape()[0] == a.Shape()[0] && m.Shape()[1] == 1 }))
				case op == "SetAt":
					xs = append(xs, pick(func(m mat.Matrix) bool { return m.Size() == 1 }))
				case op == "AppendRows":
					for k := r.Intn(3); k > 0; k-- {
						xs = append(xs, pick(func(m mat.Matrix) bool { return mat.IsVector(m) && m.Size() == a.Shape()[1] }))
					}
				case op == "ConcatV":
					xs = nil
					for k := r.Intn(4); k > 0; k-- {
						xs = append(xs, pick(func(m mat.Matrix) bool { return mat.IsVector(m) }))
					}
				case op == "Stack":
					if mat.IsVector(a) {
						for k := r.Intn(3); k > 0; k-- {
							xs = append(xs, pick(func(m mat.Matrix) bool { return mat.IsVector(m) && m.Size() == a.Size() }))
						}
					} else if r.Intn(2) == 0 {
						xs = []int{}
					}
				}
				dt := ""
				switch op {
				case "ConcatV", "Stack", "Identity", "OneHot", "InitSlice", "InitMatrix":
					dt = dts[r.Intn(2)]
				}
				if xs == nil {
					xs = []int{}
				}
				if op == "Slice" && is[0] >= a.Shape()[0] || op == "Slice" && is[1] >= a.Shape()[1] {
					if is[0] <= is[2] && is[1] <= is[3] {
						continue // an empty slice behind the end: left open
					}
				}
				if len(p.ms)+4 > 18 && !inPlaceOp(op) {
					continue
				}
				if tameOps[op] || op == "DoNonZero" || op == "DoVecNonZero" {
					odd := false
					for _, x := range xs {
						odd = odd || hasOdd(p.ms[x-1])
					}
					if odd {
						continue
					}
				}
				p.do(c, key, op, dt, xs, is, ns, more)
			}
			p.emit(c, key, m0)
		})
	}

	// one operation on operands of any size, then a change of an operand and of the result
	commands["mat-op"] = func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) {
			op := matOpNames[i/c.Of%len(matOpNames)]
			p := &pool{r: r, mode: []string{"int", "int", "real", "real", "pos", "wild", "near"}[r.Intn(7)], grown: r.Intn(2) == 0}
			if tameOps[op] && p.mode == "wild" {
				p.mode = "real"
			}
			if (op == "Log" || op == "Sqrt" || op == "Pow") && p.mode == "real" {
				p.mode = "pos"
			}
			dt := randDT(r)
			if r.Intn(4) == 0 {
				p.mode = []string{"scaled", "scaled", "same", "sparse"}[r.Intn(4)]
				lim := 200
				if dt == "f32" {
					lim = 100
				}
				if op != "Norm" && op != "Normalize2" && op != "Softmax" {
					lim = 50
				}
				p.scale = math.Ldexp(1, r.Intn(2*lim+1)-lim)
				if p.mode == "same" {
					p.scale = []float64{p.scale, -1, 0.1, 1, -0.7, 0}[r.Intn(6)]
				}
				if op == "Pow" || op == "Log" || op == "Sqrt" {
					p.mode, p.scale = "same", math.Ldexp(1, r.Intn(61)-30)
				}
			}
			odt := dt
			if r.Intn(4) == 0 && op != "AccGrad" {
				odt = randDT(r)
			}
			dim := func() int {
				if r.Intn(3) == 0 {
					return edges[r.Intn(len(edges))]
				}
				return r.Intn(8)
			}
			sh := []int{dim(), dim()}
			if r.Intn(3) == 0 || vecOps[op] && r.Intn(12) > 0 || (op == "ConcatV" || op == "Stack") && r.Intn(8) > 0 {
				sh[r.Intn(2)] = 1
			}
			if (op == "Augment" || op == "TransposeInPlace" && r.Intn(2) == 0) && r.Intn(8) > 0 {
				sh[1] = sh[0]
			}
			if op == "Item" && r.Intn(2) == 0 {
				sh = []int{1, 1}
			}
			if large := r.Intn(12) == 0; large || r.Intn(3) == 0 && (op == "Mul" || op == "MulT" || op == "T") { // large operands
				k := r.Intn(2)
				sh[k], sh[1-k] = 41+r.Intn(260), 1+r.Intn(3)
				if r.Intn(4) == 0 {
					sh[0], sh[1] = 30+r.Intn(40), 30+r.Intn(40)
				}
				if vecOps[op] || op == "ConcatV" || op == "Stack" {
					sh[k], sh[1-k] = 41+r.Intn(1200), 1
				}
				if op == "Augment" || op == "TransposeInPlace" && r.Intn(2) == 0 {
					sh[0] = 30 + r.Intn(10)
					sh[1] = sh[0]
				}
			}
			if op == "SetAt" || op == "SetScalar" || op == "Slice" || op == "SwapInPlace" || op == "ExtractRow" || op == "ExtractColumn" {
				sh[0], sh[1] = max(sh[0], 1), max(sh[1], 1)
			}
			wrong := r.Intn(5) == 0
			if wrong && op == "AppendRows" && r.Intn(2) == 0 {
				sh[1] = []int{4, 6, 8, 9}[r.Intn(4)]
			}
			x := p.add(p.fresh(dt, sh, r.Intn(2) == 0))
			a := p.ms[x-1]
			xs := []int{x}
			other := func(sh []int) int {
				if wrong {
					n := sh[0] * sh[1]
					switch r.Intn(4) { // often with the right number of elements
					case 0:
						sh = []int{sh[1], sh[0]}
					case 1:
						sh = []int{n, 1}
					case 2:
						for d := 2; d < n; d++ {
							if n%d == 0 {
								sh = []int{d, n / d}
								if r.Intn(2) == 0 {
									break
								}
							}
						}
					case 3:
						sh = []int{sh[0] + r.Intn(2), sh[1] + r.Intn(2)}
					default:
						sh = []int{dim(), dim()}
					}
				}
				return p.add(p.fresh(odt, sh, r.Intn(2) == 0))
			}
			is, ns, more := p.args(op, a)
			if op == "Slice" && (is[0] >= sh[0] || is[1] >= sh[1]) && is[0] <= is[2] && is[1] <= is[3] {
				is = []int{0, 0, sh[0], sh[1]}
			}
			switch {
			case sameDimOps[op]:
				if r.Intn(8) == 0 {
					xs = append(xs, x)
				} else {
					xs = append(xs, other(sh))
				}
				if (op == "Equal" || op == "InDelta") && p.ms[xs[1]-1].Size() == a.Size() && a.Size() > 0 {
					b := p.ms[xs[1]-1]
					if r.Intn(4) > 0 && matDT(a) == matDT(b) {
						b.SetData(a.Data())
						if r.Intn(2) == 0 {
							k := r.Intn(a.Size())
							d := b.Data().F64()
							d = append([]float64{}, d...)
							d[k] += 0.75
							b.SetData(float.Make(d...))
						}
						p.st[xs[1]-1] = stateOf(xs[1], b)
					}
				}
			case op == "Mul":
				q := dim()
				if r.Intn(3) == 0 {
					q = 1
				}
				xs = append(xs, other([]int{sh[1], q}))
			case op == "MulT":
				xs = append(xs, other([]int{sh[0], 1}))
			case op == "SetAt":
				xs = append(xs, other([]int{1, 1}))
			case op == "AppendRows":
				for k := r.Intn(3); k > 0; k-- {
					s := []int{1, sh[1]}
					if r.Intn(2) == 0 {
						s = []int{sh[1], 1}
					}
					xs = append(xs, other(s))
				}
			case op == "ConcatV":
				for k := r.Intn(3); k > 0; k-- {
					s := []int{1, dim()}
					if r.Intn(2) == 0 {
						s[0], s[1] = s[1], s[0]
					}
					xs = append(xs, other(s))
				}
			case op == "Stack":
				for k := r.Intn(3); k > 0; k-- {
					s := []int{1, sh[0] * sh[1]}
					if r.Intn(2) == 0 {
						s[0], s[1] = s[1], s[0]
					}
					xs = append(xs, other(s))
				}
			}
			m0 := append([]matState{}, p.st...)
			key := fmt.Sprintf("op/%s/%s", op, dt)
			rdt := ""
			switch op {
			case "ConcatV", "Stack", "Identity", "OneHot", "InitSlice", "InitMatrix":
				rdt = dt
			}
			p.do(c, key, op, rdt, xs, is, ns, more)
			// the results share nothing with the operands or with each other
			for k := len(m0); k < len(p.ms); k++ {
				p.do(c, key, "AddScalarInPlace", "", []int{k + 1}, nil, []float64{1}, nil)
			}
			if len(p.ms) > len(m0) {
				for k := range m0 {
					p.do(c, key, "Zeros", "", []int{k + 1}, nil, nil, nil)
				}
			}
			p.emit(c, key, m0)
		})
	}
}

// hasOdd reports whether a matrix holds NaN, an infinity or a huge number.
func hasOdd(m mat.Matrix) bool {
	for _, v := range m.Data().F64() {
		if !(math.Abs(v) < 1e6) {
			return true
		}
	}
	return false
}

func inPlaceOp(op string) bool {
	switch op {
	case "AddInPlace", "SubInPlace", "ProdInPlace", "DivInPlace", "AddScalarInPlace", "SubScalarInPlace", "ProdScalarInPlace",
		"ProdMatrixScalarInPlace", "SetData", "DataWrite", "Zeros", "SetScalar", "SetAt", "ReshapeInPlace", "FlattenInPlace",
		"TransposeInPlace", "ClipInPlace", "SwapInPlace", "ApplyInPlace", "ApplyWithAlphaInPlace", "Copy", "AccGrad", "ZeroGrad",
		"SetRequiresGrad", "Item", "ScalarAt", "ArgMax", "DoNonZero", "DoVecNonZero", "Equal", "InDelta", "SameDims", "MathFn":
		return true
	}
	return false
}
