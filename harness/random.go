package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/initializers"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/gradfn"
	srand "github.com/nlpodyssey/spago/mat/rand"
	"github.com/nlpodyssey/spago/mat/rand/bernulli"
	"github.com/nlpodyssey/spago/mat/rand/normal"
	"github.com/nlpodyssey/spago/mat/rand/uniform"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/dropout"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/sgu"
)

// limbs splits a number into 22 bit digits, most significant first.
func limbs(v uint64) []int {
	const m = 1<<22 - 1
	return []int{int(v >> 44), int(v >> 22 & m), int(v & m)}
}

// rcall is a call to a generator.
type rcall struct {
	op string
	n  int64
}

func (q rcall) String() string { return q.op + "(" + strconv.FormatInt(q.n, 10) + ")" }

// rres is its result: raw is exact, the others serve the range checks.
type rres struct {
	raw string
	w   [][]int // integers as digits
	k   []int   // small integers
	x   []F     // real numbers
}

func (q rcall) run(g *srand.LockedRand) (s rres) {
	s = rres{w: [][]int{}, k: []int{}, x: []F{}}
	defer func() {
		if e := recover(); e != nil {
			s = rres{raw: "panic", w: [][]int{}, k: []int{}, x: []F{}}
		}
	}()
	u := func(v uint64) { s.w = append(s.w, limbs(v)); s.raw += strconv.FormatUint(v, 10) + " " }
	i := func(v int64) {
		if v < 0 {
			s.raw = "negative " + strconv.FormatInt(v, 10)
		}
		u(uint64(v))
	}
	f := func(v float64, bits int) {
		s.x = append(s.x, F(v))
		s.raw = strconv.FormatFloat(v, 'x', -1, bits)
	}
	switch q.op {
	case "Int63":
		i(g.Int63())
	case "Uint32":
		u(uint64(g.Uint32()))
	case "Uint64":
		u(g.Uint64())
	case "Int31":
		i(int64(g.Int31()))
	case "Int":
		i(int64(g.Int()))
	case "Uint64n":
		u(g.Uint64n(uint64(q.n)))
	case "Int63n":
		i(g.Int63n(q.n))
	case "Int31n":
		i(int64(g.Int31n(int32(q.n))))
	case "Intn":
		i(int64(g.Intn(int(q.n))))
	case "Float32":
		f(float64(g.Float32()), 32)
	case "Float64":
		f(g.Float64(), 64)
	case "NormFloat64":
		f(g.NormFloat64(), 64)
	case "TwoInt63":
		a, b := g.TwoInt63()
		i(a)
		i(b)
	case "Perm":
		s.k = append(s.k, g.Perm(int(q.n))...)
		s.raw = fmt.Sprint(s.k)
	case "Shuffle":
		for j := 0; j < int(q.n); j++ {
			s.k = append(s.k, j)
		}
		g.Shuffle(int(q.n), func(i, j int) { s.k[i], s.k[j] = s.k[j], s.k[i] })
		s.raw = fmt.Sprint(s.k)
	case "ShuffleInPlace":
		for j := 0; j < int(q.n); j++ {
			s.k = append(s.k, j)
		}
		ks := s.k
		r := srand.ShuffleInPlace(ks, g)
		if len(r) != len(ks) || len(r) > 0 && &r[0] != &ks[0] {
			s.raw = "another slice "
		}
		s.raw += fmt.Sprint(s.k)
	case "Read":
		p := make([]byte, q.n)
		n, err := g.Read(p)
		for _, b := range p {
			s.k = append(s.k, int(b))
		}
		s.raw = fmt.Sprint(s.k)
		if n != len(p) || err != nil {
			s.raw = "short read"
		}
	default:
		panic("unknown call " + q.op)
	}
	return s
}

func (q rcall) rec(s rres) M {
	return M{"op": q.op, "bad": q.bad(), "n": limbs(uint64(q.n)), "k": s.k, "w": s.w, "x": s.x, "raw": s.raw, "len": int(min64(q.n, 1<<20))}
}

func (q rcall) bad() bool {
	switch q.op {
	case "Uint64n":
		return q.n == 0
	case "Int63n", "Int31n", "Intn":
		return q.n <= 0
	case "Perm", "Shuffle":
		return q.n < 0
	}
	return false
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

var rkinds = []string{"Int63", "Uint32", "Uint64", "Int31", "Int", "Uint64n", "Int63n", "Int31n", "Intn", "Float32", "Float64", "NormFloat64", "TwoInt63", "Perm", "Shuffle", "ShuffleInPlace", "Read"}

func randBound(r *rand.Rand, bits int) int64 {
	switch r.Intn(5) {
	case 0:
		return 1 + int64(r.Intn(4))
	case 1:
		return 1 << r.Intn(bits)
	case 2:
		return 1<<bits - 1 - int64(r.Intn(3))
	case 3:
		return 1 + r.Int63n(1<<r.Intn(bits))
	}
	return 1<<(bits-1) + r.Int63n(1<<(bits-1))
}

func randCall(r *rand.Rand, read, bad bool) rcall {
	for {
		q := rcall{op: rkinds[r.Intn(len(rkinds))]}
		switch q.op {
		case "Uint64n", "Int63n":
			q.n = randBound(r, 63)
		case "Intn":
			q.n = randBound(r, []int{63, 31, 8}[r.Intn(3)])
		case "Int31n":
			q.n = randBound(r, 31)
		case "Perm", "Shuffle", "ShuffleInPlace":
			q.n = int64(r.Intn(7))
			if r.Intn(4) == 0 {
				q.n = int64(7 + r.Intn(40))
			}
		case "Read":
			if !read {
				continue
			}
			q.n = int64(r.Intn(20))
		}
		if bad && r.Intn(8) == 0 {
			switch q.op {
			case "Uint64n":
				q.n = 0
			case "Int63n", "Int31n", "Intn", "Shuffle", "Perm":
				q.n = -int64(r.Intn(3))
			}
		}
		return q
	}
}

func randSeed(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return uint64(r.Intn(5))
	case 1:
		return 1 << r.Intn(64)
	case 2:
		return ^uint64(r.Intn(3))
	}
	return r.Uint64()
}

var rare struct {
	once  sync.Once
	seeds []uint64
}

// rareSeed gives a seed whose first number of 53 bits is nearly the largest
// one: it rounds to 1 with the precision of float32.
func rareSeed(r *rand.Rand) uint64 {
	rare.once.Do(func() {
		g := srand.NewLockedRand(0)
		try := func(s uint64) {
			g.Seed(s)
			if g.Uint64()&(1<<53-1) >= 1<<53-1<<28 {
				rare.seeds = append(rare.seeds, s)
			}
		}
		for _, s := range []uint64{5529123, 26891332, 58935016, 184106508, 185029992, 296053451} {
			try(s)
		}
		for s := uint64(0); s < 1<<27 && len(rare.seeds) == 0; s++ { // it has become another generator
			try(s)
		}
		if len(rare.seeds) == 0 {
			rare.seeds = []uint64{0}
		}
	})
	return rare.seeds[r.Intn(len(rare.seeds))]
}

// makeGen gives a generator seeded in one of the available ways.
func makeGen(r *rand.Rand, how string, seed uint64) *srand.LockedRand {
	switch how {
	case "fresh":
		return srand.NewLockedRand(seed)
	case "global":
		for j := r.Intn(4); j > 0; j-- {
			randCall(r, true, false).run(ag.Rand())
		}
		if ag.ManualSeed(seed) != ag.Rand() {
			panic("ManualSeed returns another generator")
		}
		return ag.Rand()
	}
	g := srand.NewLockedRand(randSeed(r))
	for j := r.Intn(6); j > 0; j-- {
		randCall(r, true, false).run(g)
	}
	g.Seed(seed)
	return g
}

var ways = []string{"fresh", "reseed", "global"}

func runSeq(c *Ctx, r *rand.Rand) {
	seed := randSeed(r)
	hows := []string{ways[r.Intn(3)], ways[r.Intn(3)]}
	rec := M{"mode": "seq", "key": "sequence", "how": hows}
	c.Begin(rec)
	var calls []rcall
	for j := 6 + r.Intn(12); j > 0; j-- {
		calls = append(calls, randCall(r, true, true))
	}
	if r.Intn(3) == 0 { // a first draw next to the end of its range
		seed = rareSeed(r)
		calls[0] = rcall{op: []string{"Float32", "Float32", "Float32", "Float64", "NormFloat64", "Int31"}[r.Intn(6)]}
	}
	other := seed ^ 1<<r.Intn(64) // a different seed
	run := func(how string, seed uint64) []M {
		g := makeGen(r, how, seed)
		out := []M{}
		for _, q := range calls {
			out = append(out, q.rec(q.run(g)))
		}
		for j := 0; j < 3; j++ { // enough entropy for seeds to tell
			q := rcall{op: "Uint64"}
			out = append(out, q.rec(q.run(g)))
		}
		return out
	}
	rec["outcome"] = guarded(func() {
		rec["a"] = run(hows[0], seed)
		rec["b"] = run(hows[1], seed)
		rec["c"] = run(ways[r.Intn(3)], other)
	})
	c.Emit(rec)
}

// runRandBulk has many goroutines draw from one generator.
func runRandBulk(c *Ctx, r *rand.Rand) {
	kinds := []rcall{{op: "Int63"}, {op: "Uint64"}, {op: "Int"}, {op: "Float64"}, {op: "NormFloat64"}, {op: "TwoInt63"}, {op: "Uint64n", n: 1<<62 + 12345}, {op: "Int63n", n: 1<<62 - 1}, {op: "Intn", n: 3 << 60}, {op: "Int31"}, {op: "Uint32"}, {op: "Perm", n: 20}, {op: "Shuffle", n: 20}}
	q := kinds[r.Intn(len(kinds))]
	rec := M{"mode": "bulk", "key": "shared/" + q.op}
	c.Begin(rec)
	G := 2 + r.Intn(7)
	per := 100 + r.Intn(300)
	if q.op == "Perm" || q.op == "Shuffle" {
		per = 30
	}
	n := G * per
	var seed uint64
	var ref map[string]int
	for {
		seed = r.Uint64()
		g := srand.NewLockedRand(seed)
		ref = map[string]int{}
		for j := 1; j <= n; j++ {
			if q.op == "TwoInt63" { // calls of its own would do: it draws twice
				s := q.run(g)
				fs := strings.Fields(s.raw)
				ref[fs[0]], ref[fs[1]] = 2*j-1, 2*j
			} else {
				ref[q.run(g).raw] = j
			}
		}
		if len(ref) == n || q.op == "TwoInt63" && len(ref) == 2*n {
			break
		}
	}
	out := make([][]rres, G)
	how := ways[r.Intn(3)]
	rec["outcome"] = guarded(func() {
		g := makeGen(r, how, seed)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for p := 0; p < G; p++ {
			p := p
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := 0; j < per; j++ {
					out[p] = append(out[p], q.run(g))
				}
			}()
		}
		close(start)
		wg.Wait()
	})
	hist := make([][][]int, G)
	for p := range out {
		hist[p] = [][]int{}
		for _, s := range out[p] {
			if q.op == "TwoInt63" {
				fs := strings.Fields(s.raw)
				hist[p] = append(hist[p], []int{ref[fs[0]], ref[fs[1]]})
			} else {
				hist[p] = append(hist[p], []int{ref[s.raw]})
			}
		}
	}
	rec["hist"] = hist
	rec["n"] = len(ref)
	c.Emit(rec)
}

// runRandHist records a concurrent history of different calls together with
// what a generator of this seed, used by one goroutine, answers at every
// position: tab[position][call] = result and next position.
func runRandHist(c *Ctx, r *rand.Rand) {
	rec := M{"mode": "hist", "key": "shared/mixed"}
	c.Begin(rec)
	seed := randSeed(r)
	G := 2 + r.Intn(2)
	per := 12 / G
	plans := make([][]rcall, G)
	used := map[string]rcall{}
	for p := range plans {
		for j := 0; j < 1+r.Intn(per); j++ {
			q := randCall(r, false, true)
			if q.op == "Perm" || q.op == "Shuffle" || q.op == "ShuffleInPlace" {
				q.n = q.n % 5
			}
			plans[p] = append(plans[p], q)
			used[q.String()] = q
		}
	}
	log := &eventLog{}
	add := func(t string, id int, op, res string) int {
		log.mu.Lock()
		defer log.mu.Unlock()
		log.ev = append(log.ev, M{"t": t, "id": id, "op": op, "r": res})
		return len(log.ev)
	}
	how := ways[r.Intn(3)]
	rec["outcome"] = guarded(func() {
		g := makeGen(r, how, seed)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for p := range plans {
			p := p
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j, q := range plans[p] {
					if (j+p)%2 == 0 {
						runtime.Gosched()
					}
					id := add("call", 0, q.String(), "")
					add("ret", id, "", q.run(g).raw)
				}
			}()
		}
		close(start)
		wg.Wait()
		id := add("call", 0, "Uint64(0)", "")
		add("ret", id, "", rcall{op: "Uint64"}.run(g).raw)
	})
	used["Uint64(0)"] = rcall{op: "Uint64"}
	// the sequential answers
	const P = 90
	index := map[uint64]int{}
	ref := srand.NewLockedRand(seed)
	for j := 0; j < P; j++ {
		index[ref.Uint64()] = j
	}
	tab := []M{}
	for pos := 0; pos < 60; pos++ {
		m := M{}
		for name, q := range used {
			g := srand.NewLockedRand(seed)
			for j := 0; j < pos; j++ {
				g.Uint64()
			}
			raw := q.run(g).raw
			if next, ok := index[g.Uint64()]; ok {
				m[name] = []any{raw, next}
			} else {
				m[name] = []any{raw, P}
			}
		}
		tab = append(tab, m)
	}
	rec["tab"] = tab
	rec["ev"] = log.ev
	c.Emit(rec)
}

// runStat collects many values of one call.
func runStat(c *Ctx, r *rand.Rand) {
	ops := []rcall{{op: "Int63"}, {op: "Uint64"}, {op: "Int"}, {op: "Uint32"}, {op: "Int31"}, {op: "Float32"}, {op: "Float64"}, {op: "NormFloat64"}, {op: "Read", n: 1},
		{op: "Uint64n", n: int64(1 + r.Intn(40))}, {op: "Int63n", n: int64(1 + r.Intn(40))}, {op: "Int31n", n: int64(1 + r.Intn(40))}, {op: "Intn", n: int64(1 + r.Intn(40))},
		{op: "Intn", n: 3 << 61}, {op: "Uint64n", n: 5 << 60}, {op: "Perm", n: 3}, {op: "Shuffle", n: 4}, {op: "ShuffleInPlace", n: 3},
		{op: "Float"}, {op: "Uniform"}, {op: "Normal"}, {op: "NormBins"}, {op: "NormBins"}, {op: "FloatBins"}, {op: "WeightedChoice"}, {op: "ShuffleGlobal", n: 3}, {op: "TwoInt63"}}
	q := ops[r.Intn(len(ops))]
	N := 3000
	if strings.HasSuffix(q.op, "Bins") {
		N = 400000
	}
	rec := M{"mode": "stat", "key": "distribution/" + q.op, "op": q.op, "n": N, "bound": int(min64(q.n, 1<<20)), "kind": "", "p": []F{}, "min": F(0), "max": F(1), "neg": false}
	c.Begin(rec)
	g := makeGen(r, ways[r.Intn(3)], randSeed(r))
	xs := []float64{}
	counts := map[string]int{}
	outcome := guarded(func() {
		switch q.op {
		case "Int63", "Int", "Uint64", "Uint32", "Int31", "Read", "TwoInt63":
			bits := map[string]int{"Int63": 63, "Int": 63, "Uint64": 64, "Uint32": 32, "Int31": 31, "Read": 8, "TwoInt63": 63}[q.op]
			rec["kind"] = "bits"
			b := make([]int, bits)
			for j := 0; j < N; j++ {
				s := q.run(g)
				var v uint64
				if q.op == "Read" {
					v = uint64(s.k[0])
				} else {
					l := s.w[len(s.w)-1]
					v = uint64(l[0])<<44 | uint64(l[1])<<22 | uint64(l[2])
				}
				if bits < 64 && v>>bits != 0 {
					panic("out of range")
				}
				for z := range b {
					b[z] += int(v >> z & 1)
				}
			}
			rec["counts"] = b
		case "Uint64n", "Int63n", "Int31n", "Intn":
			if q.n > 100 {
				rec["kind"] = "real"
				for j := 0; j < N; j++ {
					l := q.run(g).w[0]
					xs = append(xs, float64(uint64(l[0])<<44|uint64(l[1])<<22|uint64(l[2]))/float64(q.n))
				}
				break
			}
			rec["kind"] = "table"
			cs := make([]int, q.n)
			ps := make([]F, q.n)
			for j := range ps {
				ps[j] = F(1 / float64(q.n))
			}
			for j := 0; j < N; j++ {
				cs[q.run(g).w[0][2]]++
			}
			rec["counts"], rec["p"] = cs, ps
		case "Perm", "Shuffle", "ShuffleInPlace", "ShuffleGlobal":
			rec["kind"] = "table"
			f := 1
			for j := 2; j <= int(q.n); j++ {
				f *= j
			}
			for j := 0; j < N; j++ {
				if q.op == "ShuffleGlobal" {
					xs := []int{1, 2, 3}
					counts[fmt.Sprint(srand.ShuffleInPlace(xs, nil))]++
				} else {
					counts[q.run(g).raw]++
				}
			}
			cs, ps := []int{}, []F{}
			for _, k := range counts {
				cs = append(cs, k)
			}
			sort.Ints(cs)
			for len(cs) < f {
				cs = append(cs, 0)
			}
			for range cs {
				ps = append(ps, F(1/float64(f)))
			}
			rec["counts"], rec["p"] = cs, ps
		case "WeightedChoice":
			rec["kind"] = "table"
			if r.Intn(2) == 0 {
				// one index of probability zero at either end of many equal ones, whose rounded sum is not exactly one
				const k = 30000
				w, zero := make([]float32, k+1), k*r.Intn(2)
				for j := range w {
					if j != zero {
						w[j] = 1 / float32(k)
					}
				}
				N = 25000
				cs := []int{0, 0}
				for j := 0; j < N; j++ {
					if srand.WeightedChoice(w) == zero {
						cs[0]++
					} else {
						cs[1]++
					}
				}
				rec["n"], rec["counts"], rec["p"] = N, cs, []F{0, 1}
				break
			}
			k := 1 + r.Intn(5)
			w := make([]float64, k)
			left := 16
			for j := range w {
				v := r.Intn(left + 1)
				if j == k-1 {
					v = left
				}
				left -= v
				w[j] = float64(v) / 16
			}
			r.Shuffle(k, func(i, j int) { w[i], w[j] = w[j], w[i] })
			cs := make([]int, k)
			for j := 0; j < N; j++ {
				if r.Intn(2) == 0 {
					cs[srand.WeightedChoice(w)]++
				} else {
					w32 := make([]float32, k)
					for z := range w {
						w32[z] = float32(w[z])
					}
					cs[srand.WeightedChoice(w32)]++
				}
			}
			rec["counts"], rec["p"] = cs, Fs(w)
		case "Float32", "Float64", "Float":
			rec["kind"] = "real"
			for j := 0; j < N; j++ {
				switch {
				case q.op != "Float":
					xs = append(xs, float64(q.run(g).x[0]))
				case j%2 == 0:
					xs = append(xs, float64(srand.Float[float32]()))
				default:
					xs = append(xs, srand.Float[float64]())
				}
			}
		case "Uniform":
			rec["kind"] = "real"
			lo := float64(r.Intn(20) - 10)
			hi := lo + float64(1+r.Intn(10))
			rec["min"], rec["max"] = F(lo), F(hi)
			d := uniform.New(lo, hi, g)
			for j := 0; j < N; j++ {
				xs = append(xs, d.Next())
			}
		case "NormBins": // how often a value is how many standard deviations from the mean
			rec["kind"] = "normbins"
			cs := make([]int, 18)
			std := float64(int(1) << r.Intn(3))
			d := normal.New(std, 8, g)
			for j := 0; j < N; j++ {
				var v float64
				if j%2 == 0 {
					v = g.NormFloat64()
				} else {
					v = (d.Next() - 8) / std
				}
				b := int(math.Min(math.Abs(v)*2, 8))
				if v < 0 {
					b += 9
				}
				cs[b]++
			}
			rec["counts"] = cs
		case "FloatBins":
			rec["kind"] = "table"
			cs, ps := make([]int, 64), make([]F, 64)
			for j := range ps {
				ps[j] = 1.0 / 64
			}
			for j := 0; j < N; j++ {
				v := 0.0
				switch j % 3 {
				case 0:
					v = float64(g.Float32())
				case 1:
					v = g.Float64()
				default:
					v = (uniform.New(-8, 24.0, g).Next() + 8) / 32
				}
				cs[int(v*64)]++
			}
			rec["counts"], rec["p"] = cs, ps
		case "NormFloat64":
			rec["kind"] = "norm"
			for j := 0; j < N; j++ {
				xs = append(xs, float64(q.run(g).x[0]))
			}
		case "Normal":
			rec["kind"] = "norm"
			mean := float64(r.Intn(20) - 10)
			std := float64(1+r.Intn(10)) / 4
			rec["min"], rec["max"] = F(mean), F(std)
			d := normal.New(std, mean, g)
			for j := 0; j < N; j++ {
				xs = append(xs, d.Next())
			}
		}
	})
	rec["outcome"] = outcome
	if rec["counts"] == nil {
		rec["counts"] = []int{}
	}
	rec["x"] = Fs(xs)
	c.Emit(rec)
}

// runUnique records the choice of distinct numbers.
func runUnique(c *Ctx, r *rand.Rand) {
	max := 1 + r.Intn(8)
	bad := map[int]bool{}
	var ok []int
	ind := []int{}
	for j := 0; j < max; j++ {
		v := j
		if r.Intn(3) == 0 {
			bad[v] = true
		} else {
			ok = append(ok, v)
		}
		ind = append(ind, v)
	}
	n := r.Intn(len(ok) + 1)
	if r.Intn(2) == 0 {
		n = len(ok)
	}
	byIndex := r.Intn(2) == 0
	rec := M{"mode": "unique", "key": "unique/" + map[bool]string{true: "indices", false: "int"}[byIndex], "n": n, "max": max, "bad": []int{}}
	for b := range bad {
		rec["bad"] = append(rec["bad"].([]int), b)
	}
	c.Begin(rec)
	var out []int
	rec["outcome"] = guarded(func() {
		valid := func(v int) bool { return !bad[v] }
		if byIndex {
			out = srand.GetUniqueRandomIndices(n, ind, valid)
		} else {
			out = srand.GetUniqueRandomInt(n, max, valid)
		}
	})
	if out == nil {
		out = []int{}
	}
	rec["out"] = out
	c.Emit(rec)
}

// param is a named matrix of a model.
type rparam struct {
	name string
	m    mat.Matrix
}

func runInit(c *Ctx, r *rand.Rand) {
	kinds := []string{"Uniform", "Normal", "Constant", "Ones", "Zeros", "XavierUniform", "XavierNormal", "Achlioptas", "lstm", "self", "multi", "sgu", "Bernoulli"}
	kind := kinds[r.Intn(len(kinds))]
	dt := randDT(r)
	rows, cols := 1+r.Intn(6), 1+r.Intn(6)
	if r.Intn(3) == 0 {
		rows, cols = 10+r.Intn(30), 10+r.Intn(30)
	}
	rec := M{"mode": "init", "key": "init/" + kind, "kind": kind, "dt": dt, "gain": F(0), "a": F(0), "b": F(0), "act": ""}
	c.Begin(rec)
	seed := randSeed(r)
	if kind == "Bernoulli" && dt == "f32" && r.Intn(4) == 0 { // reach a sample next to 1
		for found := false; !found; {
			seed = r.Uint64()
			g := srand.NewLockedRand(seed)
			for j := 0; j < 2000 && !found; j++ {
				found = float32(g.Float64()) == 1
				rows, cols = j+1, 1
			}
		}
	}
	other := seed ^ 1<<r.Intn(64)
	acts := map[string]activation.Activation{"Sigmoid": activation.Sigmoid, "ReLU": activation.ReLU, "Tanh": activation.Tanh, "Identity": activation.Identity, "Softmax": activation.Softmax}
	names := []string{"Sigmoid", "ReLU", "Tanh", "Identity", "Softmax"}
	act := names[r.Intn(len(names))]
	gain := initializers.Gain(acts[act])
	a, b := float64(r.Intn(40)-20)/4, float64(1+r.Intn(20))/4
	bern := float64(r.Intn(5)) / 4
	heads := 1 + r.Intn(3)
	dim := heads * (1 + r.Intn(3))
	run := func(how string, seed uint64) []M {
		var ps []rparam
		same := true
		g := makeGen(r, how, seed)
		one := func(f func(m mat.Matrix) mat.Matrix) {
			vs := make([]float64, rows*cols)
			for j := range vs {
				vs[j] = 1e6 + float64(j)
			}
			m := newMat(dt, []int{rows, cols}, vs, false)
			got := f(m)
			same = got == m
			ps = append(ps, rparam{"", m})
		}
		lin := func(l *linear.Model) {
			ps = append(ps, rparam{"w", l.W.Value().(mat.Matrix)}, rparam{"zero", l.B.Value().(mat.Matrix)})
		}
		head := func(m *selfattention.Model) {
			lin(m.Query)
			lin(m.Key)
			lin(m.Value)
		}
		switch kind {
		case "Uniform":
			rec["a"], rec["b"] = F(a), F(a+b)
			one(func(m mat.Matrix) mat.Matrix { return initializers.Uniform(m, a, a+b, g) })
		case "Normal":
			rec["a"], rec["b"] = F(a), F(b)
			one(func(m mat.Matrix) mat.Matrix { return initializers.Normal(m, a, b, g) })
		case "Constant":
			rec["a"] = F(a)
			one(func(m mat.Matrix) mat.Matrix { return initializers.Constant(m, a) })
		case "Ones":
			rec["a"] = F(1)
			one(initializers.Ones)
		case "Zeros":
			rec["a"] = F(0)
			one(initializers.Zeros)
		case "XavierUniform":
			one(func(m mat.Matrix) mat.Matrix { return initializers.XavierUniform(m, gain, g) })
		case "XavierNormal":
			one(func(m mat.Matrix) mat.Matrix { return initializers.XavierNormal(m, gain, g) })
		case "Achlioptas":
			one(func(m mat.Matrix) mat.Matrix { return initializers.Achlioptas(m, g) })
		case "Bernoulli":
			p := bern
			rec["a"] = F(p)
			one(func(m mat.Matrix) mat.Matrix {
				if dt == "f32" {
					m.SetData(bernulli.Distribution(rows, cols, float32(p), g).Data())
				} else {
					m.SetData(bernulli.Distribution(rows, cols, p, g).Data())
				}
				return m
			})
		case "lstm":
			m := pickT(dt, lstm.New[float32](cols, rows), lstm.New[float64](cols, rows))
			f := func(p *nn.Param, name string) { ps = append(ps, rparam{name, p.Value().(mat.Matrix)}) }
			same = m.Init(g) == m
			f(m.WIn, "w")
			f(m.WInRec, "w")
			f(m.BIn, "w")
			f(m.WOut, "w")
			f(m.WOutRec, "w")
			f(m.BOut, "w")
			f(m.WFor, "w")
			f(m.WForRec, "w")
			f(m.BFor, "one")
			f(m.WCand, "w")
			f(m.WCandRec, "w")
			f(m.BCand, "w")
		case "self":
			cfg := selfattention.Config{InputSize: cols, QuerySize: rows, KeySize: rows, ValueSize: cols, ScaleFactor: 0.5}
			m := pickT(dt, selfattention.New[float32](cfg), selfattention.New[float64](cfg))
			m.Init(g)
			head(m)
		case "multi":
			m := pickT(dt, multiheadattention.New[float32](dim, heads, false, false), multiheadattention.New[float64](dim, heads, false, false))
			m.Init(g)
			lin(m.OutputMerge)
			for _, h := range m.Heads {
				head(h)
			}
		case "sgu":
			cfg := sgu.Config{Dim: 2 * cols, DimSeq: rows, InitEps: b, Activation: activation.Identity}
			m := pickT(dt, sgu.New[float32](cfg), sgu.New[float64](cfg))
			m.Initialize(seed)
			rec["a"] = F(b / float64(rows))
			ps = append(ps, rparam{"w", m.Proj.W.Value().(mat.Matrix)}, rparam{"one", m.Proj.B.Value().(mat.Matrix)})
		}
		out := []M{}
		for _, p := range ps {
			out = append(out, M{"name": p.name, "sh": p.m.Shape(), "v": Fs(p.m.Data().F64()), "same": same, "dt": matDT(p.m)})
		}
		return out
	}
	rec["gain"], rec["act"] = F(gain), act
	rec["outcome"] = guarded(func() {
		rec["p"] = run(ways[r.Intn(3)], seed)
		rec["q"] = run(ways[r.Intn(3)], seed)
		rec["o"] = run(ways[r.Intn(3)], other)
	})
	c.Emit(rec)
}

func runDropout(c *Ctx, r *rand.Rand) {
	via := []string{"ag", "func", "model", "gradfn"}[r.Intn(4)]
	dt := randDT(r)
	p := []float64{0, 0.1, 0.25, 0.5, 0.75, 0.9, 1, 0.3, float64(r.Intn(101)) / 100}[r.Intn(9)]
	rec := M{"mode": "dropout", "key": "dropout/" + via, "via": via, "dt": dt, "p": F(p)}
	c.Begin(rec)
	k := 1 + r.Intn(4)
	var shs [][]int
	big := r.Intn(3) == 0
	for j := 0; j < k; j++ {
		sh := []int{1 + r.Intn(9), 1 + r.Intn(4)}
		if r.Intn(2) == 0 {
			sh[1] = 1
		}
		if big {
			sh = []int{8 + r.Intn(20), 8 + r.Intn(20)}
		}
		shs = append(shs, sh)
	}
	vals := make([][]float64, k)
	gys := make([][]float64, k)
	for j, sh := range shs {
		for z := 0; z < sh[0]*sh[1]; z++ {
			vals[j] = append(vals[j], float64(r.Intn(17)-8)/4)
			gys[j] = append(gys[j], float64(1+r.Intn(8))/2*float64(1-2*r.Intn(2)))
		}
	}
	rgs := make([]bool, k)
	for j := range rgs {
		rgs[j] = r.Intn(6) > 0
	}
	seed := randSeed(r)
	other := seed ^ 1<<r.Intn(64)
	disturb := r.Intn(2) == 0
	run := func(seed uint64) []M {
		g := makeGen(r, "global", seed)
		if via == "gradfn" {
			g = makeGen(r, []string{"fresh", "reseed"}[r.Intn(2)], seed)
		}
		xs := make([]mat.Tensor, k)
		for j := range xs {
			xs[j] = newMat(dt, shs[j], vals[j], rgs[j])
		}
		var ys []mat.Tensor
		var fs []*gradfn.Dropout[mat.Tensor]
		switch via {
		case "ag":
			for _, x := range xs {
				ys = append(ys, ag.Dropout(x, p))
			}
		case "func":
			f := ag.DropoutFunc(p)
			for _, x := range xs {
				ys = append(ys, f(x))
			}
		case "model":
			ys = dropout.New(p).Forward(xs...)
		case "gradfn":
			for _, x := range xs {
				f := gradfn.NewDropout(x, p, g)
				y, err := f.Forward()
				must(err)
				fs = append(fs, f)
				ys = append(ys, y)
			}
		}
		out := []M{}
		for _, y := range ys {
			out = append(out, M{"sh": y.Value().Shape(), "y": Fs(y.Value().Data().F64()), "dt": matDT(y.Value())})
		}
		if disturb { // later use of the generator does not matter for the gradients
			g.Uint64()
			ag.Dropout(xs[0], 0.5).Value()
			g.Seed(99)
		}
		for _, j := range r.Perm(k) {
			gy := newMat(dt, shs[j], gys[j], false)
			if fs != nil {
				must(fs[j].Backward(gy))
			} else {
				if !ys[j].RequiresGrad() {
					continue
				}
				ys[j].AccGrad(gy)
				must(ag.Backward(ys[j]))
			}
		}
		for j := range xs {
			gr := gradOf(xs[j])
			out[j]["has"] = gr.Has
			out[j]["gx"] = gr.V
			out[j]["x"] = Fs(vals[j])
			out[j]["gy"] = Fs(gys[j])
			out[j]["rg"] = rgs[j]
			out[j]["now"] = Fs(xs[j].Value().Data().F64())
		}
		return out
	}
	rec["outcome"] = guarded(func() {
		rec["a"] = run(seed)
		rec["b"] = run(seed)
		rec["c"] = run(other)
	})
	c.Emit(rec)
}

func init() {
	commands["random"] = func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) {
			switch k := r.Intn(20); {
			case k < 5:
				runSeq(c, r)
			case k < 8:
				runStat(c, r)
			case k < 9:
				runUnique(c, r)
			case k < 14:
				runInit(c, r)
			default:
				runDropout(c, r)
			}
		})
	}
	commands["rand-bulk"] = func(c *Ctx) { c.Cases(func(i int, r *rand.Rand) { runRandBulk(c, r) }) }
	commands["rand-hist"] = func(c *Ctx) { c.Cases(func(i int, r *rand.Rand) { runRandHist(c, r) }) }
}
