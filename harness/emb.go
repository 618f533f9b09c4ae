package main

import (
	"context"
	"errors"
	"math/rand"
	"path/filepath"
	"sync"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/optimizers/sgd"
)

// EmbUser and SharedUser use a table directly and through Shared.
type EmbUser struct {
	nn.Module
	E *embedding.Model
}
type SharedUser struct {
	nn.Module
	S embedding.Shared
}

type held struct {
	row int
	t   mat.Tensor
}

type embRun struct {
	r     *rand.Rand
	dt    string
	n, d  int
	m     *embedding.Model
	held  []held
	users int
}

func (e *embRun) ints(n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = float64(e.r.Intn(9) - 4)
	}
	return v
}

// look makes look-ups of the rows, in one of the ways there are.
func (e *embRun) look(rows []int) ([]mat.Tensor, error) {
	var out []mat.Tensor
	switch e.r.Intn(4) {
	case 0:
		for _, i := range rows {
			x, err := e.m.Embedding(i)
			if err != nil {
				return nil, err
			}
			out = append(out, x)
		}
	case 1:
		return e.m.Encode(rows)
	case 2:
		return embedding.Shared{Model: e.m}.Encode(rows)
	default:
		for _, i := range rows {
			if i < 0 || i >= e.n {
				return e.m.Encode(rows)
			}
		}
		out = e.m.MustEncode(rows)
	}
	return out, nil
}

// get takes look-ups still held where there are some, or makes new ones.
func (e *embRun) get(rows []int) ([]mat.Tensor, error) {
	if e.r.Intn(2) == 0 {
		return e.look(rows)
	}
	out := make([]mat.Tensor, len(rows))
	for k, i := range rows {
		for _, h := range e.held {
			if h.row == i && (out[k] == nil || e.r.Intn(2) == 0) {
				out[k] = h.t
			}
		}
		if out[k] == nil {
			x, err := e.look([]int{i})
			if err != nil {
				return nil, err
			}
			out[k] = x[0]
		}
	}
	return out, nil
}

func (e *embRun) keep(rows []int, ts []mat.Tensor) {
	for k, t := range ts {
		if len(e.held) < 6 {
			e.held = append(e.held, held{rows[k], t})
		} else {
			e.held[e.r.Intn(6)] = held{rows[k], t}
		}
	}
}

func (e *embRun) rows(max int) []int {
	n := 1 + e.r.Intn(max)
	out := make([]int, n)
	for i := range out {
		if e.n > 0 {
			out[i] = e.r.Intn(e.n)
		}
		if i > 0 && e.r.Intn(3) == 0 {
			out[i] = out[e.r.Intn(i)]
		}
	}
	if e.n == 0 || e.r.Intn(25) == 0 {
		out[e.r.Intn(n)] = []int{-1, e.n, e.n + 7, -e.n - 1}[e.r.Intn(4)]
	}
	return out
}

func (e *embRun) traversed() []int {
	pos := map[*nn.Param]int{}
	for i, w := range e.m.Weights {
		pos[w] = i + 1
	}
	out := []int{}
	nn.ForEachParam(e.m, func(p *nn.Param) { out = append(out, pos[p]) })
	return out
}

func (e *embRun) params() nn.ParamChannelFunc {
	if e.users%2 == 0 {
		return nn.Parameters(&EmbUser{E: e.m})
	}
	return nn.Parameters(&SharedUser{S: embedding.Shared{Model: e.m}})
}

func (e *embRun) streamed() []int {
	pos := map[*nn.Param]int{}
	for i, w := range e.m.Weights {
		pos[w] = i + 1
	}
	out := []int{}
	for p := range e.params()(context.Background()) {
		out = append(out, pos[p])
	}
	return out
}

func (e *embRun) obs() M {
	vs, gs, has := [][]F{}, [][]F{}, []bool{}
	for _, w := range e.m.Weights {
		vs = append(vs, snap(w.Value()).V)
		g := gradOf(w)
		gs, has = append(gs, g.V), append(has, g.Has)
	}
	hs := []M{}
	for _, h := range e.held {
		g := gradOf(h.t)
		hs = append(hs, M{"row": h.row + 1, "v": snap(h.t.Value()).V, "has": g.Has, "g": g.V, "rg": h.t.RequiresGrad()})
	}
	o := M{"v": vs, "g": gs, "has": has, "held": hs}
	// the order of the observations matters to lazily maintained indices
	if e.r.Intn(2) == 0 {
		o["count"] = e.m.CountEmbedWithGrad()
		o["trav"], o["stream"] = e.traversed(), e.streamed()
	} else {
		o["stream"], o["trav"] = e.streamed(), e.traversed()
		o["count"] = e.m.CountEmbedWithGrad()
	}
	return o
}

// together accumulates through look-ups in several goroutines, while others count and traverse.
func (e *embRun) together(rows []int, gs [][]F) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	k := 1 + e.r.Intn(3)
	for q := 0; q < k; q++ {
		var ts []mat.Tensor
		var ms []mat.Matrix
		for j := q; j < len(rows); j += k {
			t, err := e.get([]int{rows[j]})
			must(err)
			ts, ms = append(ts, t[0]), append(ms, newMat(e.dt, col(e.d), unF(gs[j]), false))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for j, t := range ts {
				t.AccGrad(ms[j])
			}
		}()
	}
	for q := e.r.Intn(3); q > 0; q-- {
		how, n := e.r.Intn(3), 1+e.r.Intn(3)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for ; n > 0; n-- {
				switch how {
				case 0:
					e.m.CountEmbedWithGrad()
				case 1:
					nn.ForEachParam(e.m, func(*nn.Param) {})
				default:
					for range e.params()(context.Background()) {
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
}

func runEmb(c *Ctx, r *rand.Rand, conc bool) {
	e := &embRun{r: r, dt: []string{"f32", "f64"}[r.Intn(2)], n: 1 + r.Intn(5), d: 1 + r.Intn(4), users: r.Intn(2)}
	if r.Intn(40) == 0 {
		e.n = 0
	} else if r.Intn(10) == 0 {
		e.n = 10 + r.Intn(30)
	}
	e.m = pickT(e.dt, embedding.New[float32], embedding.New[float64])(e.n, e.d)
	v0 := [][]F{}
	for _, w := range e.m.Weights {
		v := e.ints(e.d)
		w.SetData(newMat(e.dt, col(e.d), v, false).Data())
		v0 = append(v0, Fs(v))
	}
	rec := M{"key": "emb", "dt": e.dt, "v0": v0, "steps": []M{}}
	c.Begin(rec)
	steps := []M{}
	rec["outcome"] = guarded(func() {
		for n := 2 + r.Intn(14); n > 0; n-- {
			rows := e.rows(4)
			if e.n > 5 {
				rows = e.rows(e.n)
			}
			s := M{"rows": inc(rows), "gs": [][]F{}, "terms": []M{}, "lr": F(0), "on": false, "err": false}
			op := []string{"look", "acc", "acc", "back", "back", "zero", "zeroall", "step", "step", "replace", "freeze", "reload"}[r.Intn(12)]
			if (op == "replace" || op == "freeze" || op == "zero") && e.n == 0 {
				op = "look"
			}
			s["op"] = op
			var err error
			if op == "acc" && conc && e.n > 0 {
				op = "together"
			}
			switch op {
			case "together":
				gs := [][]F{}
				for k := range rows {
					rows[k] = (rows[k]%e.n + e.n) % e.n
					gs = append(gs, Fs(e.ints(e.d)))
				}
				s["rows"], s["gs"] = inc(rows), gs
				e.together(rows, gs)
			case "look":
				var ts []mat.Tensor
				ts, err = e.look(rows)
				e.keep(rows, ts)
			case "acc":
				var ts []mat.Tensor
				ts, err = e.get(rows)
				gs := [][]F{}
				for range rows {
					gs = append(gs, Fs(e.ints(e.d)))
				}
				s["gs"] = gs
				for k, t := range ts {
					t.AccGrad(newMat(e.dt, col(e.d), unF(gs[k]), false))
				}
			case "back":
				var ts []mat.Tensor
				ts, err = e.get(rows)
				gy := e.ints(e.d)
				s["gs"] = [][]F{Fs(gy)}
				terms := []M{}
				var y mat.Tensor
				for k, t := range ts {
					var z mat.Tensor
					if j := r.Intn(len(ts)); r.Intn(3) == 0 {
						z = ag.Prod(t, ts[j])
						terms = append(terms, M{"kind": "prod", "a": rows[k] + 1, "b": rows[j] + 1, "c": F(0)})
					} else {
						a := float64(r.Intn(7) - 3)
						z = ag.ProdScalar(t, newMat(e.dt, []int{1, 1}, []float64{a}, false))
						terms = append(terms, M{"kind": "lin", "a": rows[k] + 1, "b": 1, "c": F(a)})
					}
					y = ag.Add(y, z)
				}
				s["terms"] = terms
				if y != nil && y.RequiresGrad() {
					y.AccGrad(newMat(e.dt, col(e.d), gy, false))
					if err := ag.Backward(y); err != nil {
						panic(err)
					}
				}
			case "zero":
				for k := range rows { // resets are not look-ups that may fail
					rows[k] = (rows[k]%e.n + e.n) % e.n
				}
				s["rows"] = inc(rows)
				ts, err := e.get(rows)
				must(err)
				for k, t := range ts {
					if r.Intn(3) == 0 {
						e.m.Weights[rows[k]].ZeroGrad()
					} else {
						t.ZeroGrad()
					}
				}
			case "zeroall":
				s["rows"] = []int{}
				switch r.Intn(3) {
				case 0:
					e.m.ZeroGrad()
				case 1:
					nn.ZeroGrad(e.m)
				default:
					nn.ZeroGrad(&EmbUser{E: e.m})
				}
			case "step":
				s["rows"] = []int{}
				lr := []float64{1, 0.5, 0.25}[r.Intn(3)]
				s["lr"] = F(lr)
				st := pickT(e.dt, func() optimizers.OptimizationStrategy { return sgd.New[float32](sgd.Config{LR: lr}) },
					func() optimizers.OptimizationStrategy { return sgd.New[float64](sgd.Config{LR: lr}) })()
				if err := optimizers.New(e.params(), st).Optimize(); err != nil {
					panic(err)
				}
			case "replace":
				i := r.Intn(e.n)
				v := e.ints(e.d)
				s["rows"], s["gs"] = []int{i + 1}, [][]F{Fs(v)}
				e.m.Weights[i].ReplaceValue(newMat(e.dt, col(e.d), v, r.Intn(2) == 0))
			case "freeze":
				i := r.Intn(e.n)
				on := r.Intn(2) == 0
				s["rows"], s["on"] = []int{i + 1}, on
				e.m.Weights[i].SetRequiresGrad(on)
			case "reload":
				s["rows"] = []int{}
				f := filepath.Join(c.Dir, "emb.bin")
				must(nn.DumpToFile(e.m, f))
				m, err := nn.LoadFromFile[*embedding.Model](f)
				must(err)
				e.m, e.held = m, nil
			}
			if err != nil {
				if !errors.Is(err, nn.ErrInvalidIndex) {
					panic(err)
				}
				s["err"] = true
			}
			s["obs"] = e.obs()
			steps = append(steps, s)
		}
	})
	rec["steps"] = steps
	c.Emit(rec)
}

func unF(v []F) []float64 {
	out := make([]float64, len(v))
	for i := range v {
		out[i] = float64(v[i])
	}
	return out
}

func init() {
	commands["embedding"] = func(c *Ctx) { c.Cases(func(i int, r *rand.Rand) { runEmb(c, r, false) }) }
	commands["emb-conc"] = func(c *Ctx) { c.Cases(func(i int, r *rand.Rand) { runEmb(c, r, true) }) }
}
