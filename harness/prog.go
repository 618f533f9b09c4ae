package main

import (
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"sync"
	"time"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/gradfn"
)

// Programs: random graphs of smooth operators over small matrices.

type pnode struct {
	kind  string // leaf, op, stop
	op    string
	p     M
	args  []int
	sh    []int
	v     []float64
	rg    bool // of leaves
	async bool
}

func (n pnode) rec() M {
	p := n.p
	if p == nil {
		p = M{}
	}
	return M{"kind": n.kind, "op": n.op, "p": p, "args": inc(n.args), "sh": n.sh, "v": Fs(n.v), "rg": n.rg, "async": n.async}
}

// inc shifts node numbers to the 1-based numbering of the specification.
func inc(xs []int) []int {
	out := make([]int, len(xs))
	for i, x := range xs {
		out[i] = x + 1
	}
	return out
}

type progGen struct {
	*gen
	nodes []pnode
}

func (g *progGen) leaf(sh []int, rg bool) int {
	vs := g.uni(size(sh))
	for i := range vs {
		vs[i] = math.Round(vs[i]*256) / 256 // exact in single precision
	}
	g.nodes = append(g.nodes, pnode{kind: "leaf", sh: sh, v: vs, rg: rg, op: ""})
	return len(g.nodes) - 1
}

// pick returns a node satisfying the condition, preferring recent ones, or -1.
func (g *progGen) pick(ok func(n pnode) bool) int {
	var c []int
	for i, n := range g.nodes {
		if ok(n) {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return -1
	}
	if g.r.Intn(2) == 0 && len(c) > 3 {
		c = c[len(c)-3:]
	}
	return c[g.r.Intn(len(c))]
}

func (g *progGen) shaped(r, c int) int {
	if g.r.Intn(5) > 0 {
		if i := g.pick(func(n pnode) bool { return n.sh[0] == r && n.sh[1] == c }); i >= 0 {
			return i
		}
	}
	return g.leaf([]int{r, c}, g.r.Intn(3) > 0)
}

func (g *progGen) any() int { return g.pick(func(n pnode) bool { return true }) }

func (g *progGen) vec() int {
	if i := g.pick(func(n pnode) bool { return n.sh[0] == 1 || n.sh[1] == 1 }); i >= 0 {
		return i
	}
	return g.leaf(g.vecShape(), true)
}

func (g *progGen) add(op string, p M, sh []int, args ...int) int {
	g.nodes = append(g.nodes, pnode{kind: "op", op: op, p: p, args: args, sh: sh, async: g.r.Intn(2) == 0})
	return len(g.nodes) - 1
}

// grow adds one random operator.
func (g *progGen) grow() int {
	r := g.r
	x := g.any()
	sh := g.nodes[x].sh
	R, C := sh[0], sh[1]
	n := R * C
	switch r.Intn(30) {
	case 26: // one tensor as several operands
		switch v := R == 1 || C == 1; {
		case v && r.Intn(2) == 0:
			return g.add("Dot", nil, []int{1, 1}, x, x)
		case v && n <= 3 && r.Intn(2) == 0:
			return g.add("Concat", nil, []int{3 * n, 1}, x, x, x)
		case v && n <= 4:
			return g.add("Concat", nil, []int{2 * n, 1}, x, x)
		}
		return g.add([]string{"Sub", "Prod", "Add"}[r.Intn(3)], nil, sh, x, x)
	case 28: // several operands, some of them repeated
		var args []int
		t := 0
		for k := 2 + r.Intn(3); k > 0; k-- {
			y := g.vec()
			if len(args) > 0 && r.Intn(2) == 0 {
				y = args[r.Intn(len(args))]
			}
			if k := size(g.nodes[y].sh); t+k <= 10 {
				args = append(args, y)
				t += k
			}
		}
		if len(args) > 0 {
			return g.add("Concat", nil, []int{t, 1}, args...)
		}
		return g.add("Neg", nil, sh, x)
	case 29:
		y := g.vec()
		args := []int{y}
		for k := r.Intn(4); k > 0; k-- {
			if r.Intn(2) == 0 {
				args = append(args, args[r.Intn(len(args))])
			} else {
				args = append(args, g.shaped(g.nodes[y].sh[0], g.nodes[y].sh[1]))
			}
		}
		return g.add("Stack", nil, []int{len(args), size(g.nodes[y].sh)}, args...)
	case 27:
		if R == 1 || C == 1 {
			return g.add("Stack", nil, []int{2, n}, x, x)
		}
		if R == C {
			return g.add("Mul", nil, sh, x, x)
		}
		return g.add("Sub", nil, sh, x, x)
	case 0, 1:
		return g.add([]string{"Tanh", "Sigmoid", "Sin", "Cos", "Neg", "Copy", "SiLU"}[r.Intn(7)], nil, sh, x)
	case 2, 3, 4:
		return g.add([]string{"Add", "Sub", "Prod"}[r.Intn(3)], nil, sh, x, g.shaped(R, C))
	case 5:
		return g.add("Add", nil, sh, x, x)
	case 6:
		return g.add("Prod", nil, sh, x, x)
	case 7, 8:
		k := 1 + r.Intn(3)
		return g.add("Mul", nil, []int{R, k}, x, g.shaped(C, k))
	case 9:
		return g.add("T", nil, []int{C, R}, x)
	case 10:
		y, z := g.vec(), g.vec()
		t := size(g.nodes[y].sh) + size(g.nodes[z].sh)
		if t > 9 {
			return g.add("Tanh", nil, sh, x)
		}
		return g.add("Concat", nil, []int{t, 1}, y, z)
	case 11:
		y := g.vec()
		return g.add("Softmax", nil, []int{size(g.nodes[y].sh), 1}, y)
	case 12:
		return g.add([]string{"ReduceSum", "ReduceMean"}[r.Intn(2)], nil, []int{1, 1}, x)
	case 13:
		y := g.vec()
		ys := g.nodes[y].sh
		return g.add("Dot", nil, []int{1, 1}, y, g.shaped(ys[0], ys[1]))
	case 14, 15:
		return g.add([]string{"AddScalar", "ProdScalar", "SubScalar", "ReverseSub"}[r.Intn(4)], nil, sh, x, g.shaped(1, 1))
	case 16:
		fr, fc := r.Intn(R), r.Intn(C)
		tr, tc := fr+1+r.Intn(R-fr), fc+1+r.Intn(C-fc)
		return g.add("Slice", M{"fr": fr, "fc": fc, "tr": tr, "tc": tc}, []int{tr - fr, tc - fc}, x)
	case 17:
		return g.add("RowView", M{"i": r.Intn(R)}, []int{1, C}, x)
	case 18:
		return g.add("ColView", M{"i": r.Intn(C)}, []int{R, 1}, x)
	case 19:
		return g.add("At", M{"i": r.Intn(R), "j": r.Intn(C)}, []int{1, 1}, x)
	case 20:
		y := g.vec()
		k := size(g.nodes[y].sh)
		ys := g.nodes[y].sh
		return g.add("Stack", nil, []int{2, k}, y, g.shaped(ys[0], ys[1]))
	case 21:
		if n > 12 {
			return g.add("Tanh", nil, sh, x)
		}
		k := 1 + r.Intn(2)
		return g.add("Affine", nil, []int{R, k}, g.shaped(R, k), x, g.shaped(C, k))
	case 22:
		return g.add("Flatten", nil, []int{1, n}, x)
	case 23:
		y := g.pick(func(n pnode) bool { return n.sh[1] == 1 })
		if y < 0 {
			y = g.leaf([]int{1 + r.Intn(5), 1}, true)
		}
		return g.add("RotateR", M{"i": r.Intn(g.nodes[y].sh[0] + 1)}, g.nodes[y].sh, y)
	case 24:
		return g.add("Square", nil, sh, x)
	default:
		return g.add("Mish", nil, sh, x)
	}
}

// newFn returns the operator's function on the given operands.
func newFn(op string, p M, x []mat.Tensor) ag.AutoGradFunction {
	switch op {
	case "Tanh":
		return gradfn.NewTanh(x[0])
	case "Sigmoid":
		return gradfn.NewSigmoid(x[0])
	case "Sin":
		return gradfn.NewSin(x[0])
	case "Cos":
		return gradfn.NewCos(x[0])
	case "Neg":
		return gradfn.NewNeg(x[0])
	case "Copy":
		return gradfn.NewCopy(x[0])
	case "SiLU":
		return gradfn.NewSiLU(x[0])
	case "Mish":
		return gradfn.NewMish(x[0])
	case "Square":
		return gradfn.NewSquare(x[0])
	case "Add":
		return gradfn.NewAdd(x[0], x[1])
	case "Sub":
		return gradfn.NewSub(x[0], x[1])
	case "Prod":
		return gradfn.NewProd(x[0], x[1])
	case "Mul":
		return gradfn.NewMul(x[0], x[1])
	case "T":
		return gradfn.NewTranspose(x[0])
	case "Concat":
		return gradfn.NewConcat(x)
	case "Softmax":
		return gradfn.NewSoftmax(x[0])
	case "ReduceSum":
		return gradfn.NewReduceSum(x[0])
	case "ReduceMean":
		return gradfn.NewReduceMean(x[0])
	case "Dot":
		return gradfn.NewDot(x[0], x[1])
	case "AddScalar":
		return gradfn.NewAddScalar(x[0], x[1])
	case "ProdScalar":
		return gradfn.NewProdScalar(x[0], x[1])
	case "SubScalar":
		return gradfn.NewSubScalar(x[0], x[1])
	case "ReverseSub":
		return gradfn.NewReverseSubScalar(x[0], x[1])
	case "Slice":
		return gradfn.NewSlice(x[0], ival(p, "fr"), ival(p, "fc"), ival(p, "tr"), ival(p, "tc"))
	case "RowView":
		return gradfn.NewRowView(x[0], ival(p, "i"))
	case "ColView":
		return gradfn.NewColView(x[0], ival(p, "i"))
	case "At":
		return gradfn.NewAt(x[0], ival(p, "i"), ival(p, "j"))
	case "Stack":
		return gradfn.NewStack(x)
	case "Affine":
		return gradfn.NewAffine(x[0], x[1], x[2])
	case "Flatten":
		return gradfn.NewFlatten(x[0])
	case "RotateR":
		return gradfn.NewRotateR(x[0], ival(p, "i"))
	}
	panic("unknown operator " + op)
}

// eventLog is a totally ordered record of what the functions of a graph did.
type eventLog struct {
	mu sync.Mutex
	ev []M
}

func (l *eventLog) add(m M) {
	l.mu.Lock()
	l.ev = append(l.ev, m)
	l.mu.Unlock()
}

// jitter delays the caller by a random small amount.
type jitter struct {
	mu   sync.Mutex
	r    *rand.Rand
	mode int // 0 none, 1 yields, 2 short sleeps
}

func (j *jitter) wait() {
	if j == nil || j.mode == 0 {
		return
	}
	j.mu.Lock()
	k := j.r.Intn(8)
	j.mu.Unlock()
	switch {
	case k < 4:
		for i := 0; i < k; i++ {
			runtime.Gosched()
		}
	case j.mode == 2 && k < 6:
		time.Sleep(time.Duration(k*10) * time.Microsecond)
	}
}

// traced wraps an operator's function: it logs its executions and perturbs the schedule.
type traced struct {
	ag.AutoGradFunction
	id  int
	log *eventLog
	j   *jitter
}

func (f *traced) Forward() (mat.Tensor, error) {
	if f.log != nil {
		f.log.add(M{"e": "fstart", "n": f.id + 1})
	}
	f.j.wait()
	y, err := f.AutoGradFunction.Forward()
	f.j.wait()
	if f.log != nil {
		f.log.add(M{"e": "fend", "n": f.id + 1})
	}
	return y, err
}

func (f *traced) Backward(gy mat.Tensor) error {
	if f.log != nil {
		f.log.add(M{"e": "bstart", "n": f.id + 1, "g": snap(gy)})
	}
	f.j.wait()
	err := f.AutoGradFunction.Backward(gy)
	f.j.wait()
	if f.log != nil {
		f.log.add(M{"e": "bend", "n": f.id + 1})
	}
	return err
}

// build turns the node into a tensor.
func buildNode(dt string, n pnode, i int, ts []mat.Tensor, log *eventLog, j *jitter) mat.Tensor {
	switch n.kind {
	case "leaf":
		return newMat(dt, n.sh, n.v, n.rg)
	case "stop":
		return ag.StopGrad(ts[n.args[0]])
	}
	xs := make([]mat.Tensor, len(n.args))
	for k, a := range n.args {
		xs[k] = ts[a]
	}
	var fn ag.AutoGradFunction = newFn(n.op, n.p, xs)
	if log != nil || j != nil {
		fn = &traced{fn, i, log, j}
	}
	return ag.NewOperator(fn).Run(n.async)
}

func allGrads(ts []mat.Tensor) []gradRec {
	out := make([]gradRec, len(ts))
	for i, t := range ts {
		out[i] = gradOf(t)
		if !out[i].Has {
			if g := t.Grad(); g != nil && !reflect.ValueOf(g).IsNil() { // there is one after all
				m := snap(g)
				out[i] = gradRec{Has: true, Sh: m.Sh, V: m.V}
			}
		}
	}
	return out
}

// accessors looks at a tensor through its own methods, finally setting one element.
func accessors(r *rand.Rand, dt string, ts []mat.Tensor) M {
	n := r.Intn(len(ts))
	t := ts[n]
	sh := append([]int{}, t.Shape()...)
	rec := M{"n": n + 1, "sh": sh, "dims": t.Dims(), "size": t.Size(), "v": Fs(append([]float64{}, t.Data().F64()...)),
		"item": "x", "i": 0, "j": 0, "at": F(0), "atsh": []int{1, 1}, "x": F(0), "after": Mx{}, "set": false}
	item := guarded(func() { rec["it"] = F(t.Item().F64()) })
	rec["item"] = item
	if item != "ok" {
		rec["it"] = F(0)
	}
	if size(sh) == 0 {
		return rec
	}
	i, j := r.Intn(sh[0]), r.Intn(sh[1])
	a := t.At(i, j)
	x := float64(r.Intn(9) - 4)
	t.SetAt(newMat(dt, []int{1, 1}, []float64{x}, false), i, j)
	rec["set"], rec["i"], rec["j"], rec["at"], rec["atsh"], rec["x"], rec["after"] = true, i+1, j+1, F(a.Item().F64()), append([]int{}, a.Shape()...), F(x), snap(t.Value())
	return rec
}

func bounded(m Mx, lim float64) bool {
	for _, v := range m.V {
		if !(math.Abs(float64(v)) < lim) {
			return false
		}
	}
	return true
}
