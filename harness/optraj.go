package main

import (
	"bytes"
	"math"
	"math/rand"
	"path/filepath"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/optimizers/adagrad"
	"github.com/nlpodyssey/spago/optimizers/adam"
	"github.com/nlpodyssey/spago/optimizers/decay/exponential"
	"github.com/nlpodyssey/spago/optimizers/decay/hyperbolic"
	"github.com/nlpodyssey/spago/optimizers/gradclipper"
	"github.com/nlpodyssey/spago/optimizers/lamb"
	"github.com/nlpodyssey/spago/optimizers/radam"
	"github.com/nlpodyssey/spago/optimizers/rmsprop"
	"github.com/nlpodyssey/spago/optimizers/sgd"
)

// ParamGroup and CkModel are a model with parameters in several places.
type ParamGroup struct {
	nn.Module
	Ps []*nn.Param
}
type CkModel struct {
	nn.Module
	First *nn.Param
	A     *ParamGroup
	B     []*ParamGroup
	E     *embedding.Model
	Stat  *nn.Buffer
}

func (m *CkModel) params() []*nn.Param {
	var ps []*nn.Param
	if m.First != nil {
		ps = append(ps, m.First)
	}
	if m.A != nil {
		ps = append(ps, m.A.Ps...)
	}
	for _, b := range m.B {
		ps = append(ps, b.Ps...)
	}
	if m.E != nil {
		ps = append(ps, m.E.Weights...)
	}
	return ps
}

// acc adds g to the gradient of the k-th parameter.
func (m *CkModel) acc(k int, g mat.Tensor) {
	ps := m.params()
	if m.E != nil {
		if e := k - (len(ps) - len(m.E.Weights)); e >= 0 {
			x, err := m.E.Embedding(e)
			must(err)
			x.AccGrad(g)
			return
		}
	}
	ps[k].AccGrad(g)
}

func newCkModel(r *rand.Rand, dt string, emb bool) *CkModel {
	param := func() *nn.Param {
		sh := [][]int{{1, 1}, {1 + r.Intn(9), 1}, {1, 1 + r.Intn(9)}, {1 + r.Intn(4), 1 + r.Intn(5)}}[r.Intn(4)]
		vs := make([]float64, size(sh))
		for i := range vs {
			vs[i] = math.Round((r.Float64()*4-2)*4096) / 4096
		}
		if r.Intn(12) == 0 {
			for i := range vs {
				vs[i] = 0
			}
		}
		d := dt
		return nn.NewParam(newMat(d, sh, vs, true))
	}
	group := func(n int) *ParamGroup {
		g := &ParamGroup{}
		for ; n > 0; n-- {
			g.Ps = append(g.Ps, param())
		}
		return g
	}
	m := &CkModel{}
	if r.Intn(2) == 0 {
		m.First = param()
	}
	if r.Intn(2) == 0 {
		m.A = group(r.Intn(3))
	}
	for n := r.Intn(3); n > 0; n-- {
		m.B = append(m.B, group(1+r.Intn(2)))
	}
	if emb && r.Intn(2) == 0 || len(m.params()) == 0 {
		if dt == "f32" {
			m.E = embedding.New[float32](1+r.Intn(4), 1+r.Intn(3))
		} else {
			m.E = embedding.New[float64](1+r.Intn(4), 1+r.Intn(3))
		}
		for _, w := range m.E.Weights {
			for i := 0; i < w.Size(); i++ {
				w.SetScalar(float.Interface(float64(r.Intn(64)-32)/16), i)
			}
		}
	}
	if r.Intn(4) == 0 {
		m.Stat = nn.Buf(newMat(dt, []int{2, 1}, []float64{1, 2}, false))
	}
	return m
}

// method is an optimization method with its clock and configuration.
type method struct {
	name string
	st   optimizers.OptimizationStrategy
	tick func()
	lr   func(v float64)
	save func(dir string, r *rand.Rand) error
	c    M
}

// store saves v and loads it again, through memory or a file.
func store[T any](v T, dir string, file bool) (T, error) {
	if file {
		f := filepath.Join(dir, "ck.gob")
		if err := nn.DumpToFile(v, f); err != nil {
			return v, err
		}
		return nn.LoadFromFile[T](f)
	}
	var buf bytes.Buffer
	if err := nn.Dump(v, &buf); err != nil {
		return v, err
	}
	return nn.Load[T](&buf)
}

func newMethod[T float32 | float64](name string, c M) *method {
	f := func(k string) float64 { return float64(c[k].(F)) }
	m := &method{name: name, c: c, tick: func() {}}
	def := c["def"] == true
	switch name {
	case "sgd":
		o := sgd.New[T](sgd.NewConfig(f("lr"), f("mu"), c["nesterov"].(bool)))
		m.st, m.lr = o, func(v float64) { o.Alpha = v }
		m.save = func(d string, r *rand.Rand) (err error) {
			var l *sgd.SGD[T]
			if l, err = store(o, d, r.Intn(2) == 0); err == nil {
				o, m.st = l, l
			}
			return
		}
	case "adagrad":
		o := adagrad.New[T](adagrad.NewConfig(f("lr"), f("eps")))
		if def {
			o = adagrad.New[T](adagrad.NewDefaultConfig())
		}
		m.st, m.lr = o, func(v float64) { o.LR = v }
		m.save = func(d string, r *rand.Rand) (err error) {
			var l *adagrad.AdaGrad[T]
			if l, err = store(o, d, r.Intn(2) == 0); err == nil {
				o, m.st = l, l
			}
			return
		}
	case "rmsprop":
		o := rmsprop.New[T](rmsprop.NewConfig(f("lr"), f("eps"), f("decay")))
		if def {
			o = rmsprop.New[T](rmsprop.NewDefaultConfig())
		}
		m.st, m.lr = o, func(v float64) { o.LR = v }
		m.save = func(d string, r *rand.Rand) (err error) {
			var l *rmsprop.RMSProp[T]
			if l, err = store(o, d, r.Intn(2) == 0); err == nil {
				o, m.st = l, l
			}
			return
		}
	case "adam":
		cf := adam.NewConfig(f("lr"), f("beta1"), f("beta2"), f("eps"))
		if f("lambda") != 0 || c["w"].(bool) {
			cf = adam.NewAdamWConfig(f("lr"), f("beta1"), f("beta2"), f("eps"), f("lambda"))
		}
		if def {
			cf = adam.NewDefaultConfig()
		}
		o := adam.New(cf)
		m.st, m.lr, m.tick = o, func(v float64) { o.StepSize = v }, func() { o.IncExample() }
		m.save = func(d string, r *rand.Rand) (err error) {
			var l *adam.Adam
			if l, err = store(o, d, r.Intn(2) == 0); err == nil {
				o, m.st = l, l
			}
			return
		}
	case "radam":
		o := radam.New[T](radam.NewConfig(f("lr"), f("beta1"), f("beta2"), f("eps")))
		if def {
			o = radam.New[T](radam.NewDefaultConfig())
		}
		m.st, m.lr, m.tick = o, func(v float64) { o.StepSize = v }, func() { o.IncBatch() }
		m.save = func(d string, r *rand.Rand) (err error) {
			var l *radam.RAdam[T]
			if l, err = store(o, d, r.Intn(2) == 0); err == nil {
				o, m.st = l, l
			}
			return
		}
	case "lamb":
		o := lamb.New[T](lamb.NewConfig(f("lr"), f("beta1"), f("beta2"), f("eps"), f("lambda")))
		if def {
			o = lamb.New[T](lamb.NewDefaultConfig())
		}
		m.st, m.lr, m.tick = o, func(v float64) { o.StepSize = v }, func() { o.IncExample() }
		m.save = func(d string, r *rand.Rand) (err error) {
			var l *lamb.Lamb[T]
			if l, err = store(o, d, r.Intn(2) == 0); err == nil {
				o, m.st = l, l
			}
			return
		}
	}
	return m
}

func pick(r *rand.Rand, vs ...float64) F { return F(vs[r.Intn(len(vs))]) }

func randConfig(r *rand.Rand) M {
	c := M{"lr": pick(r, 0.001, 0.01, 0.1, 0.5) * F(0.8+0.4*r.Float64()), "mu": pick(r, 0, 0.5, 0.9), "nesterov": r.Intn(2) == 0,
		"decay": pick(r, 0, 0.5, 0.95), "beta1": pick(r, 0, 0.5, 0.9, 0.99), "beta2": pick(r, 0, 0.5, 0.9, 0.999),
		"eps": pick(r, 1e-8, 1e-4, 0.1), "lambda": pick(r, 0, 0, 0.01, 0.1), "w": r.Intn(4) == 0}
	if c["beta2"] == F(0) || c["decay"] == F(0) { // keep the quotients well conditioned
		c["eps"] = F(0.1)
	}
	return c
}

func values(ps []*nn.Param) [][]F {
	out := make([][]F, len(ps))
	for i, p := range ps {
		out[i] = snap(p).V
	}
	return out
}

type trajStep struct {
	reload bool
	ticks  int
	lr     float64 // 0: unchanged
	put    []int   // parameters (modulo their number) that get new values
	seed   int64
	g      [][]float64
}

// runTraj trains a fresh model along the given steps.
func runTraj(c *Ctx, seed int64, name, dt string, cfg M, plan []trajStep, reloads bool, emb bool) (w0 [][]F, recs []M) {
	m := newCkModel(rand.New(rand.NewSource(seed)), dt, emb)
	mr := rand.New(rand.NewSource(seed + 1))
	var o *method
	if dt == "f32" {
		o = newMethod[float32](name, cfg)
	} else {
		o = newMethod[float64](name, cfg)
	}
	w0 = values(m.params())
	t, lr := 1, float64(cfg["lr"].(F))
	for _, s := range plan {
		if s.reload {
			if !reloads {
				continue
			}
			err := o.save(c.Dir, mr)
			if err == nil {
				m, err = store(m, c.Dir, mr.Intn(2) == 0)
			}
			recs = append(recs, M{"kind": "reload", "err": err != nil, "w": values(m.params())})
			if err != nil {
				return
			}
			continue
		}
		if len(s.put) > 0 { // a new value starts without history
			pr := rand.New(rand.NewSource(s.seed))
			ps := m.params()
			which := []int{}
			for _, k := range s.put {
				k %= len(ps)
				n := ps[k].Shape()
				if m.E == nil && pr.Intn(2) == 0 {
					n = []int{1 + pr.Intn(3), 1 + pr.Intn(3)}
				}
				ps[k].ReplaceValue(newMat(dt, n, (&gen{r: pr}).uni(size(n)), pr.Intn(2) == 0))
				which = append(which, k+1)
			}
			recs = append(recs, M{"kind": "put", "err": false, "which": which, "w": values(ps)})
		}
		if s.lr != 0 {
			lr = s.lr
			o.lr(lr)
			if s.ticks == 0 && (name == "adam" || name == "lamb") {
				s.ticks = 1
			}
		}
		for k := 0; k < s.ticks; k++ {
			o.tick()
			t++
		}
		ps := m.params()
		gs := make([][]F, len(ps))
		var kept []mat.Tensor
		var want []Mx
		for k, p := range ps {
			gs[k] = []F{}
			if g := s.g[k%len(s.g)]; g != nil {
				vs := make([]float64, p.Size())
				for j := range vs {
					vs[j] = g[(j+k)%len(g)]
				}
				x := newMat(dt, p.Shape(), vs, false)
				m.acc(k, x)
				gs[k] = gradOf(p).V
				kept = append(kept, x, p.Grad())
				want = append(want, snap(x), snap(p.Grad()))
			}
		}
		err := optimizers.New(nn.Parameters(m), o.st).Optimize()
		ok, left := true, 0
		for k, x := range kept {
			ok = ok && same(snap(x), want[k])
		}
		for _, p := range ps {
			if p.HasGrad() {
				left++
			}
		}
		cc := M{}
		for k, v := range cfg {
			cc[k] = v
		}
		cc["lr"] = F(lr)
		recs = append(recs, M{"kind": "step", "c": cc, "t": F(t), "g": gs, "w": values(ps), "err": err != nil, "kept": ok, "left": left})
	}
	return
}

func randPlan(r *rand.Rand, steps int, reloads bool) []trajStep {
	var plan []trajStep
	often := []int{2, 3, 12, 20}[r.Intn(4)]
	scale := []float64{1, 1, 8, 1e-5, 1e-8}[r.Intn(5)]
	for k := 0; k < steps; k++ {
		for reloads && r.Intn(often) == 0 {
			plan = append(plan, trajStep{reload: true})
		}
		s := trajStep{ticks: []int{1, 1, 1, 0, 2}[r.Intn(5)]}
		if k == 0 {
			s.ticks = r.Intn(2)
		}
		if r.Intn(6) == 0 {
			s.lr = float64(pick(r, 0.002, 0.03, 0.2)) * (0.8 + 0.4*r.Float64())
		}
		if r.Intn(6) == 0 {
			s.put, s.seed = []int{r.Intn(20), r.Intn(20)}, r.Int63()
		}
		full := r.Intn(2) == 0
		for n := 5; n > 0; n-- {
			var g []float64
			if full || r.Intn(3) > 0 {
				g = make([]float64, 7)
				for j := range g {
					g[j] = math.Round(r.NormFloat64()*1024) / 1024 * scale
					if r.Intn(12) == 0 {
						g[j] = 0
					}
				}
			}
			s.g = append(s.g, g)
		}
		plan = append(plan, s)
	}
	if reloads && r.Intn(2) == 0 {
		plan = append(plan, trajStep{reload: true})
	}
	return plan
}

var methodNames = []string{"sgd", "adagrad", "rmsprop", "adam", "radam", "lamb"}

func optTraj(reloads bool) func(c *Ctx) {
	return func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) {
			name := methodNames[i%len(methodNames)]
			dt := []string{"f32", "f64"}[r.Intn(2)]
			cfg := randConfig(r)
			if r.Intn(10) == 0 && name != "sgd" { // the configuration documented as the default
				cfg = M{"def": true, "lr": F(0.001), "mu": F(0), "nesterov": false, "decay": F(0.95), "beta1": F(0.9), "beta2": F(0.999), "eps": F(1e-8), "lambda": F(0), "w": false}
				switch name {
				case "adagrad":
					cfg["lr"] = F(0.01)
				case "lamb":
					cfg["lambda"] = F(0.1)
				}
			}
			n := 1 + r.Intn(8)
			if r.Intn(10) == 0 {
				n = 12 + r.Intn(20)
			}
			rec := M{"mode": "traj", "key": "optim/" + name, "method": name, "dt": dt, "cfg": cfg, "w0": [][]F{}, "steps": []M{}, "ref": [][]F{}}
			plan := randPlan(r, n, reloads)
			if reloads && i%7 == 0 {
				plan = append([]trajStep{{reload: true}}, plan...)
			}
			seed := r.Int63()
			c.Begin(rec)
			rec["outcome"] = guarded(func() {
				w0, recs := runTraj(c, seed, name, dt, cfg, plan, reloads, reloads)
				rec["w0"], rec["steps"] = w0, recs
				if reloads {
					w, all := runTraj(c, seed, name, dt, cfg, plan, false, true)
					if len(all) > 0 {
						w = all[len(all)-1]["w"].([][]F)
					}
					rec["ref"] = w
				}
			})
			if rec["steps"] == nil {
				rec["steps"] = []M{}
			}
			c.Emit(rec)
		})
	}
}

type foreign struct{ A int }

// optAlien: some parameters carry the state of another optimizer.
func optAlien(c *Ctx) {
	c.Cases(func(i int, r *rand.Rand) {
		name := methodNames[i%len(methodNames)]
		dt := []string{"f32", "f64"}[r.Intn(2)]
		cfg := randConfig(r)
		lr := cfg["lr"].(F)
		rec := M{"mode": "alien", "key": "alien/" + name, "method": name, "dt": dt, "c": cfg, "w0": [][]F{}}
		c.Begin(rec)
		rec["outcome"] = guarded(func() {
			m := newCkModel(r, dt, r.Intn(2) == 0)
			ps := m.params()
			var o *method
			if dt == "f32" {
				o = newMethod[float32](name, cfg)
			} else {
				o = newMethod[float64](name, cfg)
			}
			rec["w0"] = values(ps)
			gs, alien := make([][]F, len(ps)), make([]bool, len(ps))
			states := make([]any, len(ps))
			for k, p := range ps {
				gs[k] = []F{}
				if r.Intn(4) > 0 {
					vs := (&gen{r: r}).uni(size(p.Shape()))
					for j := range vs {
						vs[j] = math.Round(vs[j]*256) / 256
					}
					m.acc(k, newMat(dt, p.Shape(), vs, false))
					gs[k] = gradOf(p).V
				}
				if r.Intn(3) == 0 {
					alien[k] = true
					z := func() mat.Matrix { return newMat(dt, p.Shape(), make([]float64, p.Size()), false) }
					all := map[string]any{"sgd": &sgd.State{V: z(), Buf: z(), VPrev: z(), VTmp: z()}, "adagrad": &adagrad.State{M: z()}, "rmsprop": &rmsprop.State{V: z()},
						"adam": &adam.State{V: z(), M: z(), Buf1: z(), Buf2: z(), Buf3: z()}, "radam": &radam.State{M: z(), V: z()}, "lamb": &lamb.State{V: z(), M: z()}}
					other := methodNames[r.Intn(len(methodNames))]
					if other == name {
						states[k] = foreign{3}
					} else {
						states[k] = all[other]
					}
					p.State = states[k]
				}
			}
			rec["g"], rec["alien"] = gs, alien
			err := optimizers.New(nn.Parameters(m), o.st).Optimize()
			has, kept := make([]bool, len(ps)), make([]bool, len(ps))
			for k, p := range ps {
				has[k] = p.HasGrad()
				kept[k] = !alien[k] || p.State == states[k]
			}
			cfg["lr"] = lr
			rec["err"], rec["w"], rec["has"], rec["kept"] = err != nil, values(ps), has, kept
		})
		c.Emit(rec)
	})
}

func init() {
	commands["opt-alien"] = optAlien
	commands["opt-traj"] = optTraj(false)
	commands["opt-resume"] = optTraj(true)
	commands["opt-decay"] = func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) {
			final := math.Pow(10, -1-3*r.Float64())
			init := final * (1 + 9*r.Float64())
			lr := init
			times := 1 + r.Intn(20)
			t := r.Intn(times + 1)
			rate := []float64{0, 0.1, 0.5, 2}[r.Intn(4)]
			switch r.Intn(4) {
			case 0:
				lr = final
			case 1:
				lr = final * 0.9
			case 2:
				lr = final + (init-final)*r.Float64()
			}
			fn := []string{"exponential", "hyperbolic"}[i%2]
			rec := M{"mode": "decay", "key": "decay/" + fn, "fn": fn, "init": F(init), "final": F(final), "times": times, "t": t, "rate": F(rate), "lr": F(lr), "out": F(0)}
			c.Begin(rec)
			rec["outcome"] = guarded(func() {
				if fn == "exponential" {
					rec["out"] = F(exponential.New(init, final, times).Decay(lr, t))
				} else {
					rec["out"] = F(hyperbolic.New(init, final, rate).Decay(lr, t))
				}
			})
			c.Emit(rec)
		})
	}
	commands["opt-config"] = func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) {
			if i%3 == 2 {
				init := []float64{0.1, 0.01, 1}[r.Intn(3)]
				final := init * []float64{0, 0.1, 0.999999, 1, 1.000001, 2}[r.Intn(6)]
				fn := []string{"exponential", "hyperbolic"}[r.Intn(2)]
				rec := M{"mode": "config", "key": "config/" + fn, "init": F(init), "final": F(final)}
				c.Begin(rec)
				rec["outcome"] = guarded(func() {
					if fn == "exponential" {
						exponential.New(init, final, 1+r.Intn(100))
					} else {
						hyperbolic.New(init, final, r.Float64())
					}
				})
				c.Emit(rec)
				return
			}
			name := []string{"adam", "adamw", "radam", "lamb"}[r.Intn(4)]
			rate := func() float64 {
				return []float64{0, 0.5, 0.9, 0.999999, 1, 1, 1.5, -1e-9, -0.5, math.NaN(), math.Inf(1)}[r.Intn(11)]
			}
			b1, b2 := rate(), rate()
			switch r.Intn(4) { // only one of them may be wrong
			case 0:
				b1 = 0.9
			case 1:
				b2 = 0.9
			}
			rec := M{"mode": "config", "key": "config/" + name, "dt": "f64", "beta1": F(b1), "beta2": F(b2)}
			c.Begin(rec)
			rec["outcome"] = guarded(func() {
				switch name {
				case "adam":
					adam.NewConfig(0.1, b1, b2, 1e-8)
				case "adamw":
					adam.NewAdamWConfig(0.1, b1, b2, 1e-8, 0.1)
				case "radam":
					radam.NewConfig(0.1, b1, b2, 1e-8)
				case "lamb":
					lamb.NewConfig(0.1, b1, b2, 1e-8, 0.1)
				}
			})
			c.Emit(rec)
		})
	}
	commands["opt-clip-config"] = func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) {
			dt := []string{"f32", "f64"}[r.Intn(2)]
			ptype := []float64{1.0000001, 1.5, 2, math.Inf(1), 1, 1, 0.999, 0.5, 0, -1, -2, math.Inf(-1)}[r.Intn(12)]
			rec := M{"mode": "clipconf", "key": "config/normclipper", "dt": dt, "ptype": F(ptype), "w0": [][]F{}, "w1": [][]F{}, "g0": [][]F{}, "g1": [][]F{}}
			c.Begin(rec)
			m := newCkModel(r, dt, true)
			for k, p := range m.params() {
				vs := make([]float64, p.Size())
				for j := range vs {
					vs[j] = float64(float32(r.NormFloat64() * 10))
				}
				m.acc(k, newMat(dt, p.Shape(), vs, false))
			}
			grads := func() [][]F {
				var out [][]F
				for _, p := range m.params() {
					out = append(out, gradOf(p).V)
				}
				return out
			}
			rec["w0"], rec["g0"] = values(m.params()), grads()
			cl := &gradclipper.NormClipper{MaxNorm: 0.5, NormType: ptype}
			rec["outcome"] = guarded(func() { cl.ClipGradients(nn.Parameters(m)) })
			rec["w1"], rec["g1"] = values(m.params()), grads()
			c.Emit(rec)
		})
	}
	commands["opt-clip"] = func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) {
			dt := []string{"f32", "f64"}[r.Intn(2)]
			kind := []string{"value", "norm"}[i%2]
			rec := M{"mode": "clip", "key": "clip/" + kind, "dt": dt, "kind": kind, "w0": [][]F{}, "w1": [][]F{}, "g0": [][]F{}, "g1": [][]F{}, "limit": F(0), "ptype": F(2), "inf": false, "huge": false}
			c.Begin(rec)
			rec["outcome"] = guarded(func() {
				m := newCkModel(r, dt, true)
				ps := m.params()
				scale := []float64{0.001, 0.1, 1, 10, 1e4}[r.Intn(5)]
				if r.Intn(12) == 0 { // their powers are out of range
					scale = 1e30
					if dt == "f64" {
						scale = 1e250
					}
				}
				total := 0.0
				ptype := []float64{1.5, 2, 2, 3, math.Inf(1)}[r.Intn(5)]
				some := r.Intn(3) > 0
				for k, p := range ps {
					if some && r.Intn(3) == 0 || i%17 == 3 {
						continue
					}
					vs := make([]float64, p.Size())
					for j := range vs {
						vs[j] = r.NormFloat64() * scale
						if dt == "f32" {
							vs[j] = float64(float32(vs[j]))
						}
						if math.IsInf(ptype, 1) {
							total = math.Max(total, math.Abs(vs[j]))
						} else {
							total += math.Pow(math.Abs(vs[j]), ptype)
						}
					}
					m.acc(k, newMat(dt, p.Shape(), vs, false))
				}
				if !math.IsInf(ptype, 1) {
					total = math.Pow(total, 1/ptype)
				}
				// a limit well inside, or well outside
				limit := total * []float64{0.05, 0.5, 0.95, 1.05, 3}[r.Intn(5)]
				if total == 0 || scale > 1e20 {
					limit = 1
				}
				if r.Intn(12) == 0 {
					limit = 0
				}
				if kind == "value" {
					limit = scale * []float64{0, 0.1, 0.1, 0.5, 0.5, 1, 1, 3, 3}[r.Intn(9)]
					if dt == "f32" {
						limit = float64(float32(limit))
					}
				}
				rec["huge"] = scale > 1e20
				rec["limit"], rec["inf"] = F(limit), math.IsInf(ptype, 1)
				if !math.IsInf(ptype, 1) {
					rec["ptype"] = F(ptype)
				}
				grads := func() [][]F {
					out := make([][]F, len(ps))
					for k, p := range ps {
						out[k] = gradOf(p).V
					}
					return out
				}
				rec["w0"], rec["g0"] = values(ps), grads()
				var fn nn.ParamChannelFunc = nn.Parameters(m)
				switch r.Intn(4) {
				case 0:
					fn = nn.StreamParams(ps)
				case 1: // parameters shared by several models occur more than once
					fn = nn.StreamParams(append(append([]*nn.Param{}, ps...), ps[r.Intn(len(ps))]))
				}
				if kind == "value" {
					(&gradclipper.ValueClipper{Value: limit}).ClipGrads(fn)
				} else {
					(&gradclipper.NormClipper{MaxNorm: limit, NormType: ptype}).ClipGradients(fn)
				}
				rec["w1"], rec["g1"] = values(ps), grads()
			})
			c.Emit(rec)
		})
	}
}

// stateMats lists the matrices of an optimizer's state.
func stateMats(s any) []mat.Matrix {
	switch v := s.(type) {
	case *sgd.State:
		return []mat.Matrix{v.V, v.Buf, v.VPrev, v.VTmp}
	case *adagrad.State:
		return []mat.Matrix{v.M}
	case *rmsprop.State:
		return []mat.Matrix{v.V}
	case *adam.State:
		return []mat.Matrix{v.V, v.M, v.Buf1, v.Buf2, v.Buf3}
	case *radam.State:
		return []mat.Matrix{v.M, v.V, v.Buf1, v.Buf2, v.Buf3}
	case *lamb.State:
		return []mat.Matrix{v.V, v.M, v.Buf1, v.Buf2, v.Buf3}
	}
	return nil
}
