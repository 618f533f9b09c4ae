package main

import (
	"math/rand"
	"sync"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
)

// gradObj is a set of gradient cells behind the public API.
type gradObj struct {
	kind  string
	d     int
	dt    string
	cells []func() mat.Tensor // each caller gets its own handle
	model *embedding.Model
}

func newGradObj(r *rand.Rand, d int) *gradObj {
	o := &gradObj{d: d, dt: []string{"f32", "f64"}[r.Intn(2)]}
	one := func(t mat.Tensor) { o.cells = append(o.cells, func() mat.Tensor { return t }) }
	zeros := func() mat.Matrix { return newMat(o.dt, []int{d, 1}, make([]float64, d), true) }
	o.kind = []string{"tensor", "param", "embedding", "operator", "embedding"}[r.Intn(5)]
	switch o.kind {
	case "tensor":
		for q := 1 + r.Intn(2); q > 0; q-- {
			one(zeros())
		}
	case "param":
		one(nn.NewParam(zeros()))
	case "operator":
		x := ag.StopGrad(zeros())
		one(ag.Sum(x, zeros()))
	case "embedding":
		if o.dt == "f32" {
			o.model = embedding.New[float32](4, d)
		} else {
			o.model = embedding.New[float64](4, d)
		}
		for q := 0; q < 1+r.Intn(3); q++ {
			q := q
			if r.Intn(2) == 0 {
				o.cells = append(o.cells, func() mat.Tensor { e, err := o.model.Embedding(q); must(err); return e })
			} else {
				o.cells = append(o.cells, func() mat.Tensor { return embedding.Shared{Model: o.model}.MustEncode([]int{q})[0] })
			}
		}
	}
	return o
}

// contribution is a tensor holding x, 2x, 3x, ...
func (o *gradObj) contribution(x int) mat.Matrix {
	vs := make([]float64, o.d)
	for i := range vs {
		vs[i] = float64(x * (i + 1))
	}
	return newMat(o.dt, []int{o.d, 1}, vs, false)
}

// content reads a gradient: 0 for none, -1 for a torn one.
func (o *gradObj) content(t mat.Tensor, all bool) int {
	g := t.Grad()
	if g == nil || isNilMatrix(g) {
		return 0
	}
	vs := g.Data().F64()
	x := vs[0]
	if all {
		if len(vs) != o.d {
			return -1
		}
		for i, v := range vs {
			if v != x*float64(i+1) {
				return -1
			}
		}
	}
	if x != float64(int(x)) {
		return -1
	}
	return int(x)
}

func isNilMatrix(t mat.Tensor) bool {
	switch m := t.(type) {
	case *mat.Dense[float32]:
		return m == nil
	case *mat.Dense[float64]:
		return m == nil
	}
	return t == nil
}

func (o *gradObj) accumulate(t mat.Tensor, x int, r *rand.Rand) {
	m := o.contribution(x)
	if r.Intn(3) == 0 { // hand over another tensor's gradient
		src := newMat(o.dt, []int{o.d, 1}, make([]float64, o.d), true)
		src.AccGrad(m)
		t.AccGrad(src.Grad())
		src.AccGrad(m)
		src.Grad().(mat.Matrix).ProdScalarInPlace(5)
		return
	}
	if r.Intn(4) == 0 && o.kind != "operator" { // by back-propagation
		ones := make([]float64, o.d)
		for i := range ones {
			ones[i] = 1
		}
		y := ag.Prod(t, m)
		y.AccGrad(newMat(o.dt, []int{o.d, 1}, ones, false))
		must(ag.Backward(y))
		return
	}
	t.AccGrad(m)
	m.ProdScalarInPlace(3) // the contributed tensor is the caller's again
}

func init() {
	commands["grad-hist"] = func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) {
			d := 1
			if r.Intn(2) == 0 {
				d = 2 + r.Intn(9)
			}
			o := newGradObj(r, d)
			rows := len(o.cells)
			rec := M{"mode": "hist", "key": "grad/" + o.kind, "dt": o.dt, "rows": rows}
			c.Begin(rec)
			log := &eventLog{}
			begin := func(op string, row, x int) int {
				log.mu.Lock()
				defer log.mu.Unlock()
				log.ev = append(log.ev, M{"t": "call", "id": 0, "op": op, "row": row + 1, "x": x, "r": 0})
				return len(log.ev)
			}
			end := func(id, res int) {
				log.mu.Lock()
				defer log.mu.Unlock()
				log.ev = append(log.ev, M{"t": "ret", "id": id, "op": "", "row": 0, "x": 0, "r": res})
			}
			j := &jitter{r: rand.New(rand.NewSource(r.Int63())), mode: r.Intn(3)}
			rec["outcome"] = guarded(func() {
				var wg sync.WaitGroup
				start := make(chan struct{})
				G := 2 + r.Intn(3)
				per := 16 / G
				for g := 0; g < G; g++ {
					rr := rand.New(rand.NewSource(r.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						for q := 0; q < 1+rr.Intn(per); q++ {
							row := rr.Intn(rows)
							t := o.cells[row]()
							k := rr.Intn(10)
							j.wait()
							switch {
							case k < 6:
								x := 1 << (g*per + q)
								id := begin("acc", row, x)
								o.accumulate(t, x, rr)
								end(id, 0)
							case k == 6:
								id := begin("zero", row, 0)
								t.ZeroGrad()
								end(id, 0)
							case k == 7 && o.model != nil && rr.Intn(2) == 0:
								var ids []int
								for w := 0; w < rows; w++ {
									ids = append(ids, begin("zero", w, 0))
								}
								o.model.ZeroGrad()
								for _, id := range ids {
									end(id, 0)
								}
							case k == 7 && o.model != nil:
								id := begin("count", row, 0)
								end(id, o.model.CountEmbedWithGrad())
							case k == 8:
								id := begin("has", row, 0)
								res := 0
								if t.HasGrad() {
									res = 1
								}
								end(id, res)
							default:
								id := begin("get", row, 0)
								end(id, o.content(t, false))
							}
						}
					}()
				}
				close(start)
				wg.Wait()
				for w := range o.cells {
					id := begin("get", w, 0)
					end(id, o.content(o.cells[w](), true))
				}
				if o.model != nil {
					id := begin("count", 0, 0)
					end(id, o.model.CountEmbedWithGrad())
				}
			})
			rec["ev"] = log.ev
			c.Emit(rec)
		})
	}
	commands["grad-bulk"] = func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) {
			o := newGradObj(r, 1+r.Intn(40))
			for o.dt != "f64" {
				o = newGradObj(r, 1+r.Intn(40))
			}
			rec := M{"mode": "bulk", "key": "grad/" + o.kind, "d": o.d}
			c.Begin(rec)
			rows := len(o.cells)
			G := 2 + r.Intn(7)
			n := 50 + r.Intn(400)
			tot := make([][]float64, G)
			rec["outcome"] = guarded(func() {
				var wg sync.WaitGroup
				start := make(chan struct{})
				for g := 0; g < G; g++ {
					tot[g] = make([]float64, rows)
					rr := rand.New(rand.NewSource(r.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						for q := 0; q < n; q++ {
							row := rr.Intn(rows)
							x := 1 + rr.Intn(50)
							tot[g][row] += float64(x)
							o.accumulate(o.cells[row](), x, rr)
							if q%16 == 0 {
								o.cells[row]().HasGrad()
							}
						}
					}()
				}
				close(start)
				wg.Wait()
			})
			want, got := make([][]F, rows), make([][]F, rows)
			for w := range want {
				want[w], got[w] = []F{}, []F{}
				for g := range tot {
					if tot[g] != nil && tot[g][w] != 0 {
						want[w] = append(want[w], F(tot[g][w]))
					}
				}
				if gr := gradOf(o.cells[w]()); gr.Has {
					got[w] = gr.V
				}
			}
			rec["want"], rec["got"] = want, got
			c.Emit(rec)
		})
	}
}
