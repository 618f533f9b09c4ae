package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"time"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/optimizers"
)

type paramList struct {
	nn.Module
	Ps []*nn.Param
}

// nested spreads parameters over sub-models.
type nested struct {
	nn.Module
	A    *paramList
	B    []*paramList
	Last *nn.Param
}

// logStrategy is an update strategy that logs what it is asked to do.
type logStrategy struct {
	id   map[*nn.Param]int
	fail map[int]bool
	log  *eventLog
	s    *sched
	j    *jitter
	lr   float64
}

func (st *logStrategy) OptimizeParams(p *nn.Param) error {
	id, ok := st.id[p]
	if !ok {
		st.log.add(M{"e": "start", "n": 0})
		return nil
	}
	st.s.do([3]int{0, id, 0}, func() { st.log.add(M{"e": "start", "n": id}) })
	st.j.wait()
	var err error
	st.s.do([3]int{2, id, 0}, func() {
		if st.fail[id] {
			err = fmt.Errorf("failure %d", id)
			st.log.add(M{"e": "fail", "n": id})
			return
		}
		p.SubInPlace(p.Grad().(mat.Matrix).ProdScalar(st.lr))
		k, _ := p.State.(int)
		p.State = k + 1
		p.ZeroGrad()
		st.log.add(M{"e": "end", "n": id})
	})
	st.j.wait()
	return err
}

type optStep struct {
	has, fail map[int]bool
	steps     [][3]int
}

func stateInt(p *nn.Param) int {
	k, _ := p.State.(int)
	return k
}

// runOptimize performs optimization steps over the parameters in the given stream order.
func runOptimize(c *Ctx, r *rand.Rand, key string, n int, order []int, steps []optStep, j *jitter) {
	rec := M{"mode": "opt", "key": key, "n": n, "order": order, "lr": F(0.25), "steps": []M{}}
	c.Begin(rec)
	var recs []M
	rec["outcome"] = guarded(func() {
		ps := make([]*nn.Param, n)
		ids := map[*nn.Param]int{}
		for i := range ps {
			vs := make([]float64, 1+r.Intn(4))
			for k := range vs {
				vs[k] = float64(r.Intn(64) - 32)
			}
			ps[i] = nn.NewParam(newMat([]string{"f32", "f64"}[r.Intn(2)], []int{len(vs), 1}, vs, true))
			ids[ps[i]] = i + 1
		}
		stream := make([]*nn.Param, len(order))
		for k, p := range order {
			stream[k] = ps[p-1]
		}
		var fn nn.ParamChannelFunc
		switch r.Intn(3) {
		case 0:
			fn = nn.StreamParams(stream)
		case 1:
			fn = nn.Parameters(&paramList{Ps: stream})
		default:
			m := &nested{}
			rest := stream
			if len(rest) > 0 {
				k := r.Intn(len(rest))
				m.A, rest = &paramList{Ps: rest[:k]}, rest[k:]
			}
			for len(rest) > 1 {
				k := 1 + r.Intn(len(rest)-1)
				m.B, rest = append(m.B, &paramList{Ps: rest[:k]}), rest[k:]
			}
			if len(rest) > 0 {
				m.Last = rest[0]
			}
			fn = nn.Parameters(m)
		}
		st := &logStrategy{id: ids, j: j, lr: 0.25}
		opt := optimizers.New(fn, st)
		for _, s := range steps {
			st.log, st.fail, st.s = &eventLog{}, s.fail, newSched(s.steps)
			v0, v1, g0, g1 := make([][]F, n), make([][]F, n), make([][]F, n), make([][]F, n)
			s0, s1 := make([]int, n), make([]int, n)
			for i, p := range ps {
				if s.has[i+1] {
					vs := make([]float64, p.Size())
					for k := range vs {
						vs[k] = float64(r.Intn(33) - 16)
					}
					p.AccGrad(newMat(dtOf(p), []int{len(vs), 1}, vs, false))
				}
				v0[i], s0[i], g0[i] = snap(p).V, stateInt(p), gradOf(p).V
			}
			err := opt.Optimize()
			st.log.add(M{"e": "ret", "n": 0})
			for i, p := range ps {
				v1[i], s1[i], g1[i] = snap(p).V, stateInt(p), gradOf(p).V
			}
			if r.Intn(2) == 0 {
				time.Sleep(300 * time.Microsecond)
			}
			code := 0
			if err != nil {
				code = -1
				for k := 1; k <= n; k++ {
					if err.Error() == fmt.Sprintf("failure %d", k) || errors.Unwrap(err) != nil && errors.Unwrap(err).Error() == fmt.Sprintf("failure %d", k) {
						code = k
					}
				}
			}
			st.log.mu.Lock()
			ev := append([]M(nil), st.log.ev...)
			st.log.mu.Unlock()
			fails := []int{}
			for k := range s.fail {
				fails = append(fails, k)
			}
			recs = append(recs, M{"ev": ev, "err": code, "fail": fails, "v0": v0, "v1": v1, "g0": g0, "g1": g1, "s0": s0, "s1": s1})
		}
	})
	rec["steps"] = recs
	c.Emit(rec)
}

func dtOf(t mat.Tensor) string {
	if _, ok := t.Value().Data().(interface{ BitSize() int }); ok && t.Value().Data().(interface{ BitSize() int }).BitSize() == 32 {
		return "f32"
	}
	return "f64"
}

func init() {
	commands["opt-sched"] = func(c *Ctx) {
		c.Lines(func(i int, line []byte) {
			var in struct {
				N     int
				Order []int
				Has   []int
				Fail  []int
				Hist  [][3]int
			}
			check(json.Unmarshal(line, &in))
			r := rand.New(rand.NewSource(c.Seed*1000003 + int64(i)))
			s := optStep{has: map[int]bool{}, fail: map[int]bool{}, steps: in.Hist}
			for _, k := range in.Has {
				s.has[k] = true
			}
			for _, k := range in.Fail {
				s.fail[k] = true
			}
			again := optStep{has: s.has, fail: map[int]bool{}}
			runOptimize(c, r, "opt/replay", in.N, in.Order, []optStep{s, again}, nil)
		})
	}
	for _, f := range []string{"ok", "fail"} {
		failing := f == "fail"
		commands["opt-rand-"+f] = func(c *Ctx) {
			c.Cases(func(i int, r *rand.Rand) {
				n := 1 + r.Intn(12)
				if i%10 == 3 {
					n = 40 + r.Intn(80)
				}
				if i%50 == 9 {
					n = 400
				}
				order := r.Perm(n)
				for k := range order {
					order[k]++
				}
				if r.Intn(3) == 0 { // some parameters are missing, some occur several times
					for k := range order {
						if r.Intn(3) == 0 {
							order[k] = 1 + r.Intn(n)
						}
					}
				}
				if r.Intn(20) == 0 {
					order = nil
				}
				var steps []optStep
				for q := 1 + r.Intn(3); q > 0; q-- {
					s := optStep{has: map[int]bool{}, fail: map[int]bool{}}
					full, bad := r.Intn(2) == 0, r.Intn(4)
					for k := 1; k <= n; k++ {
						s.has[k] = full || r.Intn(2) == 0
						if failing {
							switch bad {
							case 0:
								if k == n {
									s.fail[k] = true
								}
							case 1:
								s.fail[k] = true
							case 2:
								if r.Intn(4) == 0 {
									s.fail[k] = true
								}
							}
						}
					}
					steps = append(steps, s)
				}
				runOptimize(c, r, "opt/"+f, n, order, steps, &jitter{r: rand.New(rand.NewSource(r.Int63())), mode: r.Intn(3)})
			})
		}
	}
}
