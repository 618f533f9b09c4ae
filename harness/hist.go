package main

import (
	"math/rand"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

func init() {
	for _, flavour := range []string{"paths", "reuse", "block"} {
		fl := flavour
		commands["hist-"+fl] = func(c *Ctx) {
			c.Cases(func(i int, r *rand.Rand) { runHist(c, r, fl, i) })
		}
	}
}

// runHist records one history of a random graph: growing it, assigning and
// zeroing gradients, and back-propagating from random outputs.
func runHist(c *Ctx, r *rand.Rand, flavour string, i int) {
	dt := "f64"
	lim := 1e4
	if r.Intn(6) == 0 {
		dt, lim = "f32", 50
	}
	g := &progGen{gen: &gen{r: r, dt: dt}}
	var ts []mat.Tensor
	var acts []M
	j := &jitter{r: rand.New(rand.NewSource(r.Int63())), mode: r.Intn(3)}
	rec := M{"mode": "hist", "key": "hist/" + flavour, "dt": dt}
	sync := func() { // makes the tensors of the nodes that have none yet
		for k := len(ts); k < len(g.nodes); k++ {
			n := g.nodes[k]
			acts = append(acts, M{"a": "new", "node": n.rec()})
			rec["acts"] = acts
			c.Begin(rec)
			ts = append(ts, buildNode(dt, n, k, ts, nil, j))
		}
	}
	grow := func(n int) {
		for k := 0; k < n; k++ {
			stops := 12
			if flavour == "block" {
				stops = 4
			}
			if len(g.nodes) > 0 && r.Intn(stops) == 0 {
				x := g.any()
				g.nodes = append(g.nodes, pnode{kind: "stop", args: []int{x}, sh: g.nodes[x].sh})
			}
			g.grow()
		}
		sync()
	}
	isBig := false
	rec["outcome"] = guarded(func() {
		for k := 0; k < 1+r.Intn(3); k++ {
			g.leaf(g.shape3(), flavour != "block" || r.Intn(2) == 0)
		}
		switch flavour {
		case "paths":
			grow(2 + r.Intn(12))
		case "block":
			grow(3 + r.Intn(9))
		default:
			grow(2 + r.Intn(6))
		}
		rounds := 1
		if flavour == "reuse" {
			rounds = 3 + r.Intn(6)
		} else if r.Intn(3) == 0 {
			rounds = 2
		}
		for k := 0; k < rounds && !isBig; k++ {
			before := len(acts)
			act := r.Intn(10)
			if flavour != "reuse" || k == 0 || k == rounds-1 {
				act = 9
			}
			switch {
			case act < 2:
				grow(1 + r.Intn(3))
				continue
			case act < 4: // zero some or all gradients
				var ns []int
				all := r.Intn(2) == 0
				for n := range ts {
					if all || r.Intn(3) == 0 {
						ns = append(ns, n)
					}
				}
				a := M{"a": "zero", "ns": inc(ns)}
				acts = append(acts, a)
				rec["acts"] = acts
				c.Begin(rec)
				for _, n := range ns {
					ts[n].ZeroGrad()
				}
				a["grads"] = allGrads(ts)
				if r.Intn(3) == 0 { // and on without a look at the result
					a["grads"] = []gradRec{}
				}
			case act < 5: // assign a gradient somewhere
				n := r.Intn(len(ts))
				acts = append(acts, accGrad(g, ts, n, dt))
			default:
				roots, willFail := pickRoots(g, ts, flavour)
				for _, n := range roots {
					t := ts[n]
					if !t.HasGrad() && (size(g.nodes[n].sh) > 1 || r.Intn(4) == 0) && !willFail && g.nodes[n].kind == "op" {
						acts = append(acts, accGrad(g, ts, n, dt))
					}
				}
				if flavour == "paths" && r.Intn(3) == 0 { // gradients from earlier work
					acts = append(acts, accGrad(g, ts, r.Intn(len(ts)), dt))
				}
				a := M{"a": "back", "roots": inc(roots), "err": false}
				acts = append(acts, a)
				rec["acts"] = acts
				c.Begin(rec)
				xs := make([]mat.Tensor, len(roots))
				for q, n := range roots {
					xs[q] = ts[n]
				}
				err := ag.Backward(xs...)
				a["err"] = err != nil
				for q := 0; q < 6 && flavour == "reuse" && r.Intn(2) == 0; q++ { // immediately again
					a["grads"] = []gradRec{}
					if r.Intn(2) == 0 {
						for n := range ts {
							ts[n].ZeroGrad()
						}
						all := make([]int, len(ts))
						for n := range all {
							all[n] = n
						}
						acts = append(acts, M{"a": "zero", "ns": inc(all), "grads": []gradRec{}})
						for _, n := range roots {
							if !ts[n].HasGrad() && g.nodes[n].kind == "op" {
								acts = append(acts, accGrad(g, ts, n, dt))
							}
						}
					}
					a = M{"a": "back", "roots": inc(roots), "err": false}
					acts = append(acts, a)
					rec["acts"] = acts
					a["err"] = ag.Backward(xs...) != nil
				}
				gr := allGrads(ts)
				a["grads"] = gr
				for _, x := range gr {
					isBig = isBig || !bounded(Mx{V: x.V}, lim)
				}
			}
			if isBig {
				acts = acts[:before] // rounding dominates: forget this round
			}
		}
		ys := make([]Mx, len(ts))
		rgs := make([]bool, len(ts))
		for n, t := range ts {
			ys[n] = snap(t.Value())
			rgs[n] = t.RequiresGrad()
			if !bounded(ys[n], lim) {
				isBig = true
				rec["skip"] = true
			}
		}
		rec["ys"], rec["rgs"] = ys, rgs
		rec["look"] = accessors(r, dt, ts)
	})
	rec["acts"] = acts
	if rec["skip"] == true {
		return
	}
	c.Emit(rec)
}

func (g *progGen) shape3() []int {
	sh := g.shape()
	for size(sh) > 9 {
		sh = g.shape()
	}
	return sh
}

func accGrad(g *progGen, ts []mat.Tensor, n int, dt string) M {
	vs := g.uni(size(g.nodes[n].sh))
	vs = round(dt, vs)
	m := newMat(dt, g.nodes[n].sh, vs, false)
	a := M{"a": "acc", "n": n + 1, "g": snap(m)}
	ts[n].AccGrad(m)
	m.ProdScalarInPlace(7) // the contributed tensor is the caller's again
	return a
}

// pickRoots chooses outputs; willFail asks for an output without the gradient it needs.
func pickRoots(g *progGen, ts []mat.Tensor, flavour string) (roots []int, willFail bool) {
	r := g.r
	willFail = flavour == "reuse" && r.Intn(4) == 0
	k := 1 + r.Intn(3)
	for q := 0; q < k; q++ {
		n := g.pick(func(n pnode) bool { return n.kind == "op" })
		roots = append(roots, n)
	}
	if r.Intn(4) == 0 {
		roots = append(roots, roots[0])
	}
	if r.Intn(8) == 0 {
		roots = append(roots, r.Intn(len(ts)))
	}
	if flavour == "paths" || r.Intn(2) == 0 {
		roots = append(roots, len(ts)-1)
	}
	r.Shuffle(len(roots), func(a, b int) { roots[a], roots[b] = roots[b], roots[a] })
	return roots, willFail
}
