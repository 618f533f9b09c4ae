package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math/rand"
	"sync"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
)

// scall is what one goroutine does with the shared model.
type scall struct {
	rec    M
	run    func() []mat.Tensor // the results
	decode func() []int        // or the labels
	seed   int64
	ys     []Mx
	gys    []gradRec
	out    string
}

// use applies the model and runs backward from its results.
func (s *scall) use(g *lgen) {
	s.out = guarded(func() {
		if s.decode != nil {
			s.rec["path"] = inc(s.decode())
			return
		}
		r := rand.New(rand.NewSource(s.seed))
		out := s.run()
		for _, y := range out {
			s.ys = append(s.ys, snap(y.Value()))
		}
		seen := map[mat.Tensor]bool{}
		var outs []mat.Tensor
		for _, y := range out {
			no := gradRec{Sh: []int{0, 0}, V: []F{}}
			if !seen[y] && g.b.pos[y] == 0 && r.Intn(8) > 0 {
				seen[y] = true
				v := make([]float64, y.Value().Size())
				for i := range v {
					v[i] = r.Float64()*4 - 2
				}
				seed := newMat(g.dt, y.Value().Shape(), round(g.dt, v), false)
				q := snap(seed)
				no = gradRec{Has: true, Sh: q.Sh, V: q.V}
				if y.RequiresGrad() {
					y.AccGrad(seed)
					outs = append(outs, y)
				}
			}
			s.gys = append(s.gys, no)
		}
		if len(outs) > 0 {
			if err := ag.Backward(outs...); err != nil {
				panic(err)
			}
		}
	})
}

// look traverses and encodes a model.
func look(m nn.Model) (string, error) {
	n := 0
	nn.ForEachParam(m, func(p *nn.Param) { n += p.Value().Size() })
	var buf bytes.Buffer
	err := gob.NewEncoder(&buf).Encode(m)
	return fmt.Sprintf("%d %x %v", n, buf.Bytes(), err), err
}

// runShared lets several goroutines use one model at once.
func runShared(c *Ctx, g *lgen, k int) {
	g.wide, g.long = false, false
	r := g.r
	procs := 2 + r.Intn(3)
	if r.Intn(12) == 0 {
		procs = 5 + r.Intn(8)
	}
	var m nn.Model
	var call func() *scall
	key := ""
	switch k % 12 {
	case 0:
		in, out := 1+r.Intn(3), 1+r.Intn(3)
		rnn := newRnn(g, in, out)
		g.fill(rnn)
		m, key = rnn, "rnn"
		call = func() *scall {
			rec, run := g.rnnCall(rnn, in, out)
			return &scall{rec: rec, run: run}
		}
	case 1, 2:
		s := g.selfModel(k%12 == 2)
		m, key = s.model(), "self"
		call = func() *scall {
			rec, run := g.selfCall(s)
			return &scall{rec: rec, run: run}
		}
	case 3:
		x, xs0 := g.crf(1)
		m, key = x, "crf"
		call = func() *scall {
			xs := g.inputs(1+r.Intn(4), xs0[0].Shape())
			ids := g.b.addAll(xs)
			in := g.hide(xs)
			if r.Intn(2) == 0 {
				return &scall{rec: M{"mode": "decode", "xs": ids}, decode: func() []int { return x.Decode(in) }}
			}
			gold := make([]int, len(xs))
			for i := range gold {
				gold[i] = r.Intn(x.Size)
			}
			return &scall{rec: M{"mode": "crf", "xs": ids, "gold": inc(gold)},
				run: func() []mat.Tensor { return []mat.Tensor{x.NegativeLogLoss(in, gold)} }}
		}
	default:
		d := layerTable[r.Intn(len(layerTable))]
		for d.prop == "C23" && r.Intn(2) == 0 {
			d = layerTable[r.Intn(len(layerTable))]
		}
		l, n, sh, _ := g.layer(d)
		m, key = l, d.name
		var last []mat.Tensor
		call = func() *scall {
			xs := last
			if xs == nil || r.Intn(3) > 0 {
				xs = g.inputs(n, sh)
			}
			last = xs
			ids := g.b.addAll(xs)
			in := g.hide(xs)
			return &scall{rec: M{"mode": "fwd", "xs": ids}, run: func() []mat.Tensor { return l.Forward(in...) }}
		}
	}
	calls := make([]*scall, procs)
	for p := range calls {
		calls[p] = call()
		calls[p].seed = r.Int63()
	}
	rec := M{"mode": "shared", "key": "shared/" + key, "m": g.b.model(m), "xs": []int{}, "cold": []int{}}
	rec["dt"], rec["t"], rec["back"], rec["chk"] = g.dt, g.b.recs(), key != "dropout", g.looked()
	recs := []M{}
	for _, s := range calls {
		recs = append(recs, s.rec)
	}
	rec["calls"] = recs
	c.Begin(rec)
	before := make([]Mx, len(g.b.ts))
	for i, t := range g.b.ts {
		before[i] = snap(t.Value())
	}
	intact := true
	was, _ := look(m)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, s := range calls {
		wg.Add(1)
		go func(s *scall) {
			defer wg.Done()
			<-start
			s.use(g)
		}(s)
	}
	looks := make([]string, r.Intn(3))
	for k := range looks {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-start
			looks[k], _ = look(m)
		}(k)
	}
	close(start)
	wg.Wait()
	ys, gys, gx := []Mx{}, []gradRec{}, []gradRec{}
	out := "ok"
	for _, s := range calls {
		if s.out != "ok" {
			out = s.out
		}
		ys, gys = append(ys, s.ys...), append(gys, s.gys...)
	}
	for i, t := range g.b.ts {
		gx = append(gx, gradOf(t))
		intact = intact && same(before[i], snap(t.Value()))
	}
	for _, l := range looks {
		intact = intact && l == was
	}
	rec["ys"], rec["gys"], rec["gx"], rec["intact"], rec["outcome"] = ys, gys, gx, intact, out
	c.Emit(rec)
}

func init() {
	commands["shared"] = func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) { runShared(c, newLgen(r), i/c.Of) })
	}
}
