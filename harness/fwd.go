package main

import (
	"encoding/json"
	"math"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// runFwd builds the graph with several builders, reads values concurrently
// and returns the record of what the forward functions and the readers saw.
func runFwd(b *bnet, r *rand.Rand, async []bool, owner []int, builders, readers int, force bool) {
	n := len(b.dag)
	b.fwd = true
	b.ops = make([]*ag.Operator, n)
	reg := make([]chan struct{}, n)
	for i := range reg {
		reg[i] = make(chan struct{})
	}
	leafV := make([]float64, b.d)
	for i := range leafV {
		leafV[i] = float64(r.Intn(17)-8) / 4
	}
	b.leaf = newMat("f64", []int{b.d, 1}, leafV, true)
	ws := []float64{0.5, 1, -1, 0.25, 1, -0.5, 1, 0.5}
	b.w = make([][]float64, n)
	for i, args := range b.dag {
		b.w[i] = make([]float64, len(args))
		for k := range args {
			b.w[i][k] = ws[r.Intn(len(ws))] / float64(1+len(args)/2)
		}
	}
	if force {
		ag.SetForceSyncExecution(true)
		defer ag.SetForceSyncExecution(false)
	}
	var wg sync.WaitGroup
	for bd := 1; bd <= builders; bd++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, args := range b.dag {
				if owner[i] != bd {
					continue
				}
				f := &wsum{b: b, n: i + 1}
				for _, a := range args {
					switch {
					case a > 0:
						<-reg[a-1]
						f.xs = append(f.xs, b.ops[a-1])
					default:
						f.xs = append(f.xs, b.leaf)
					}
				}
				b.s.do([3]int{3, i + 1, 0}, func() {})
				o := ag.NewOperator(f).Run(async[i])
				b.log.add(M{"e": "ran", "n": i + 1, "k": 0, "v": []F{}})
				b.ops[i] = o
				close(reg[i])
			}
		}()
	}
	for q := 0; q < readers; q++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 4+n/4; k++ {
				i := rr.Intn(n)
				<-reg[i]
				if rr.Intn(3) == 0 {
					b.ops[i].RequiresGrad()
				}
				b.log.add(M{"e": "read", "n": i + 1, "k": 0, "v": readValue(b.ops[i], b.d)})
			}
		}()
	}
	wg.Wait()
	for i := range b.ops {
		b.log.add(M{"e": "read", "n": i + 1, "k": 0, "v": readValue(b.ops[i], b.d)})
	}
}

var readings atomic.Uint32

// readValue reads the d elements of a column in one of the ways there are.
func readValue(t mat.Tensor, d int) []F {
	switch readings.Add(1) % 7 {
	case 0:
		return Fs(t.Data().F64())
	case 1:
		out := make([]F, d)
		for i := range out {
			out[i] = F(t.At(i, 0).Item().F64())
		}
		return out
	case 2:
		if t.Dims() != 2 || len(t.Shape()) != 2 || t.Shape()[1] != 1 || t.Shape()[0] != t.Size() {
			return []F{F(math.NaN())}
		}
	case 3:
		if d == 1 {
			return []F{F(t.Item().F64())}
		}
	case 4:
		t.HasGrad() // there is none: the value is what matters
		t = ag.StopGrad(t)
	}
	v := t.Value()
	if v == nil || isNilTensor(v) {
		return []F{}
	}
	return Fs(v.Data().F64())
}

func emitFwd(c *Ctx, b *bnet, r *rand.Rand, key string, async []bool, owner []int, builders, readers int, force bool) {
	b.log = &eventLog{}
	rec := M{"mode": "fwd", "key": key, "dag": b.dag, "async": async, "force": force, "w": [][]F{}, "ev": []M{}}
	c.Begin(rec)
	rec["outcome"] = guarded(func() { runFwd(b, r, async, owner, builders, readers, force) })
	b.log.mu.Lock()
	rec["ev"] = append([]M(nil), b.log.ev...)
	b.log.mu.Unlock()
	for k, v := range b.nodes() {
		rec[k] = v
	}
	rec["leaf"] = Fs(b.leaf.Data().F64())
	c.Emit(rec)
}

func init() {
	commands["fwd-sched"] = func(c *Ctx) {
		c.Lines(func(i int, line []byte) {
			var in struct {
				Dag   [][]int
				Async []bool
				Owner []int
				Hist  [][3]int
			}
			check(json.Unmarshal(line, &in))
			r := rand.New(rand.NewSource(c.Seed*1000003 + int64(i)))
			b := &bnet{d: 1, dag: in.Dag, s: newSched(in.Hist)}
			emitFwd(c, b, r, "fwd/replay", in.Async, in.Owner, 2, r.Intn(2), false)
		})
	}
	commands["fwd-rand"] = func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) {
			b := &bnet{d: 1, dag: randFwdDag(r, i, c.Tier), s: newSched(nil), j: &jitter{r: rand.New(rand.NewSource(r.Int63())), mode: r.Intn(3)}}
			n := len(b.dag)
			async, owner := make([]bool, n), make([]int, n)
			builders := 1
			if r.Intn(2) == 0 {
				builders = 1 + r.Intn(6)
			}
			style := r.Intn(4)
			for k := range async {
				async[k] = style < 2 || style == 2 && r.Intn(2) == 0
				owner[k] = 1 + r.Intn(builders)
			}
			if r.Intn(4) == 0 {
				defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1 + r.Intn(3)))
			}
			emitFwd(c, b, r, "fwd/random", async, owner, builders, r.Intn(4), r.Intn(5) == 0)
		})
	}
}

// randFwdDag returns a graph for forward execution: wide, deep, tree-like or random.
func randFwdDag(r *rand.Rand, i int, tier string) [][]int {
	n := 3 + r.Intn(30)
	switch {
	case i%50 == 11:
		n = 300 + r.Intn(300)
		if tier == "thorough" && r.Intn(4) == 0 {
			n = 3000
		}
	case i%6 == 1:
		n = 60 + r.Intn(80)
	}
	style := r.Intn(5)
	var dag [][]int
	for k := 1; k <= n; k++ {
		var args []int
		for q := 1 + r.Intn(3); q > 0; q-- {
			a := 0
			switch {
			case k == 1:
			case style == 0: // a chain
				a = k - 1
			case style == 1: // independent operators, then one that needs all
			case style == 2: // a tree folded from the leaves
				a = max(0, 2*k-n)
				if a+1 >= k {
					a = k - 1
				}
			case style == 3: // many on one
				a = 1
			default:
				a = r.Intn(k)
			}
			args = append(args, a)
		}
		dag = append(dag, args)
	}
	if style == 1 || style == 3 {
		var all []int
		for q := 1; q < n; q++ {
			all = append(all, q)
		}
		dag[n-1] = append(all, 0)
	}
	return dag
}
