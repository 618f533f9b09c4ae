package main

import (
	"encoding/json"
	"math/rand"
	"sync"
	"time"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// Graphs of weighted sums whose executions are logged, and optionally forced
// into a given order.

// sched releases the steps of the functions in a prescribed order. When the
// next step of the prescription does not show up for a while, the
// implementation does not follow it and all steps are let go.
type sched struct {
	mu    sync.Mutex
	cond  *sync.Cond
	steps [][3]int // kind (0 start, 1 deliver, 2 end), operator, operand
	pos   int
	busy  bool
	last  time.Time
	free  bool
}

func newSched(steps [][3]int) *sched {
	s := &sched{steps: steps, last: time.Now(), free: len(steps) == 0}
	s.cond = sync.NewCond(&s.mu)
	if !s.free {
		go func() {
			for {
				time.Sleep(20 * time.Millisecond)
				s.mu.Lock()
				if time.Since(s.last) > 150*time.Millisecond {
					s.free = true
				}
				done := s.free || s.pos >= len(s.steps)
				if done {
					s.free = true
				}
				s.cond.Broadcast()
				s.mu.Unlock()
				if done {
					return
				}
			}
		}()
	}
	return s
}

// do runs fn as the given step, when its turn has come.
func (s *sched) do(st [3]int, fn func()) {
	s.mu.Lock()
	for !s.free && (s.busy || s.pos >= len(s.steps) || s.steps[s.pos] != st) {
		s.cond.Wait()
	}
	if s.free {
		s.mu.Unlock()
		fn()
		return
	}
	s.busy = true
	s.mu.Unlock()
	fn()
	s.mu.Lock()
	s.busy = false
	s.pos++
	s.last = time.Now()
	s.cond.Broadcast()
	s.mu.Unlock()
}

type bnet struct {
	d    int
	dag  [][]int
	w    [][]float64
	leaf mat.Tensor
	ops  []*ag.Operator
	log  *eventLog
	s    *sched
	j    *jitter
	fwd  bool // log forward executions as well

	looks   bool // others ask for gradients while Backward runs
	readers sync.WaitGroup
}

// wsum is the function Σ w_k·x_k.
type wsum struct {
	b  *bnet
	n  int // from 1
	xs []mat.Tensor
}

func (f *wsum) Operands() []mat.Tensor { return f.xs }

func (f *wsum) Forward() (mat.Tensor, error) {
	b := f.b
	if b.fwd {
		b.log.add(M{"e": "fstart", "n": f.n, "k": 0, "v": []F{}})
	}
	b.j.wait()
	y := make([]float64, b.d)
	for k, x := range f.xs {
		if !b.fwd {
			for i, e := range x.Value().Data().F64() {
				y[i] += b.w[f.n-1][k] * e
			}
			b.j.wait()
			continue
		}
		b.s.do([3]int{1, f.n, k + 1}, func() {
			vs := readValue(x, f.b.d)
			b.log.add(M{"e": "fread", "n": f.n, "k": k + 1, "v": vs})
			for i := range vs {
				y[i] += b.w[f.n-1][k] * float64(vs[i])
			}
		})
		b.j.wait()
	}
	if b.fwd {
		b.s.do([3]int{2, f.n, 0}, func() {
			b.log.add(M{"e": "fend", "n": f.n, "k": 0, "v": Fs(y)})
		})
	}
	return newMat("f64", []int{b.d, 1}, y, false), nil
}

func (f *wsum) Backward(gy mat.Tensor) error {
	b := f.b
	b.s.do([3]int{0, f.n, 0}, func() {
		b.log.add(M{"e": "start", "n": f.n, "k": 0, "g": Fs(gy.Data().F64())})
	})
	for k, x := range f.xs {
		b.j.wait()
		b.s.do([3]int{1, f.n, k + 1}, func() {
			b.log.add(M{"e": "del", "n": f.n, "k": k + 1, "g": []F{}})
			if x.RequiresGrad() {
				x.AccGrad(gy.(mat.Matrix).ProdScalar(b.w[f.n-1][k]))
			}
		})
		if to := b.dag[f.n-1][k]; b.looks && to > 0 && x.RequiresGrad() && (f.n*5+k)%3 == 0 {
			b.readers.Add(1)
			go func() {
				defer b.readers.Done()
				g := x.Grad()
				b.log.add(M{"e": "look", "n": to, "k": 0, "g": Fs(g.Data().F64())})
			}()
		}
	}
	b.j.wait()
	b.s.do([3]int{2, f.n, 0}, func() {
		b.log.add(M{"e": "end", "n": f.n, "k": 0, "g": []F{}})
	})
	return nil
}

func isNilTensor(t mat.Tensor) bool {
	m, ok := t.(mat.Matrix)
	return ok && (m == nil || m.Shape() == nil)
}

func (b *bnet) build(r *rand.Rand, async func(n int) bool) {
	leafV := make([]float64, b.d)
	for i := range leafV {
		leafV[i] = float64(r.Intn(17)-8) / 4
	}
	b.leaf = newMat("f64", []int{b.d, 1}, leafV, true)
	ws := []float64{0.5, 1, -1, 0.25, 2, -0.5, 1, 0.5}
	for n, args := range b.dag {
		f := &wsum{b: b, n: n + 1}
		w := make([]float64, len(args))
		for k, a := range args {
			w[k] = ws[r.Intn(len(ws))]
			switch {
			case a > 0:
				f.xs = append(f.xs, b.ops[a-1])
			case a == 0:
				f.xs = append(f.xs, b.leaf)
			default:
				var t mat.Tensor = newMat("f64", []int{b.d, 1}, leafV, false)
				if n > 0 && r.Intn(2) == 0 {
					t = ag.StopGrad(b.ops[r.Intn(n)])
				}
				f.xs = append(f.xs, t)
			}
		}
		b.w = append(b.w, w)
		b.ops = append(b.ops, ag.NewOperator(f).Run(async(n)))
	}
}

func (b *bnet) nodes() M {
	ws := make([][]F, len(b.w))
	for i := range b.w {
		ws[i] = Fs(b.w[i])
	}
	return M{"dag": b.dag, "w": ws}
}

// call runs one Backward from the given operators and returns its record.
func (b *bnet) call(r *rand.Rand, roots []int, steps [][3]int) M {
	b.log = &eventLog{}
	b.s = newSched(steps)
	seeds := make([][]F, len(roots))
	seen := map[int]int{}
	xs := make([]mat.Tensor, len(roots))
	for i, n := range roots {
		xs[i] = b.ops[n-1]
		if p, ok := seen[n]; ok {
			seeds[i] = seeds[p]
			continue
		}
		seen[n] = i
		if b.d == 1 && r.Intn(2) == 0 {
			seeds[i] = []F{1}
			continue
		}
		g := make([]float64, b.d)
		for k := range g {
			g[k] = float64(r.Intn(31)-15) / 8
		}
		seeds[i] = Fs(g)
		b.ops[n-1].AccGrad(newMat("f64", []int{b.d, 1}, g, false))
	}
	err := ag.Backward(xs...)
	b.log.add(M{"e": "ret", "n": 0, "k": 0, "g": []F{}})
	b.readers.Wait()
	time.Sleep(time.Duration(r.Intn(3)*100) * time.Microsecond)
	grads := make([][]F, len(b.ops))
	for i, o := range b.ops {
		grads[i] = []F{}
		if g := gradOf(o); g.Has {
			grads[i] = g.V
		}
	}
	leaf := []F{}
	if g := gradOf(b.leaf); g.Has {
		leaf = g.V
	}
	b.log.mu.Lock()
	ev := append([]M(nil), b.log.ev...)
	b.log.mu.Unlock()
	rec := M{"roots": roots, "seeds": seeds, "err": err != nil, "ev": ev, "grads": grads, "leaf": leaf}
	for _, o := range b.ops {
		o.ZeroGrad()
	}
	b.leaf.ZeroGrad()
	return rec
}

func noAsync(int) bool { return false }

func init() {
	// replays of behaviours of Backward.tla
	commands["bwd-sched"] = func(c *Ctx) {
		c.Lines(func(i int, line []byte) {
			var in struct {
				Dag  [][]int
				Hist [][]any
			}
			check(json.Unmarshal(line, &in))
			r := rand.New(rand.NewSource(c.Seed*1000003 + int64(i)))
			b := &bnet{d: 1 + 2*r.Intn(2), dag: in.Dag, j: nil, looks: r.Intn(4) == 0}
			rec := M{"mode": "bwd", "key": "bwd/replay", "dag": b.dag, "w": [][]F{}, "calls": []M{}}
			c.Begin(rec)
			var calls []M
			rec["outcome"] = guarded(func() {
				b.build(r, noAsync)
				for p := 0; p < len(in.Hist); {
					var roots []int
					for _, x := range in.Hist[p][3:] {
						roots = append(roots, int(x.(float64)))
					}
					if r.Intn(4) == 0 {
						roots = append(roots, roots[r.Intn(len(roots))])
					}
					var steps [][3]int
					for p++; p < len(in.Hist) && in.Hist[p][0] != "call"; p++ {
						h := in.Hist[p]
						kind := map[string]int{"start": 0, "del": 1, "end": 2}[h[0].(string)]
						steps = append(steps, [3]int{kind, int(h[1].(float64)), int(h[2].(float64))})
					}
					calls = append(calls, b.call(r, roots, steps))
				}
			})
			rec["calls"] = calls
			for k, v := range b.nodes() {
				rec[k] = v
			}
			c.Emit(rec)
		})
	}
	// large random graphs under perturbed schedules
	commands["bwd-rand"] = func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) {
			b := &bnet{d: 1, dag: randDag(r, i), j: &jitter{r: rand.New(rand.NewSource(r.Int63())), mode: r.Intn(3)}, looks: r.Intn(3) == 0}
			if r.Intn(3) == 0 {
				b.d = 3
			}
			rec := M{"mode": "bwd", "key": "bwd/random", "dag": b.dag, "w": [][]F{}, "calls": []M{}}
			c.Begin(rec)
			var calls []M
			rec["outcome"] = guarded(func() {
				as := r.Intn(3)
				b.build(r, func(int) bool { return as == 0 || as == 1 && r.Intn(2) == 0 })
				for k := 0; k < 1+r.Intn(3); k++ {
					roots := []int{len(b.ops)}
					for q := r.Intn(4); q > 0; q-- {
						roots = append(roots, 1+r.Intn(len(b.ops)))
					}
					r.Shuffle(len(roots), func(x, y int) { roots[x], roots[y] = roots[y], roots[x] })
					calls = append(calls, b.call(r, roots, nil))
				}
			})
			rec["calls"] = calls
			for k, v := range b.nodes() {
				rec[k] = v
			}
			c.Emit(rec)
		})
	}
}

// randDag returns a random graph in one of several styles.
func randDag(r *rand.Rand, i int) [][]int {
	n := 2 + r.Intn(14)
	switch {
	case i%40 == 7:
		n = 100 + r.Intn(200)
	case i%8 == 3:
		n = 16 + r.Intn(48)
	}
	style := r.Intn(6)
	var dag [][]int
	for k := 1; k <= n; k++ {
		na := 1 + r.Intn(3)
		if style == 5 && r.Intn(6) == 0 {
			na = 4
		}
		args := make([]int, na)
		for q := range args {
			switch {
			case k == 1 || r.Intn(5) == 0:
				args[q] = -r.Intn(2)
			case style == 0: // chain with shortcuts
				args[q] = max(1, k-1-r.Intn(2))
			case style == 1: // hub: everything uses the first operator
				args[q] = 1
			case style == 2 && k == n: // one sink
				args[q] = 1 + r.Intn(k-1)
			case style == 2:
				args[q] = 1
			case style == 3 && q > 0: // repeated operands
				args[q] = args[0]
			default:
				args[q] = 1 + r.Intn(k-1)
			}
		}
		dag = append(dag, args)
	}
	if style == 2 && n > 3 { // the sink gathers all
		var all []int
		for q := 1; q < n; q++ {
			all = append(all, q)
		}
		dag[n-1] = all
	}
	return dag
}
