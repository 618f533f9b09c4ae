package main

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/linear"
)

// TNode, TLeaf, TBase and TTrav are the models that traversal is tried on.
type TNode struct {
	nn.Module
	TBase
	id     int
	hidden *nn.Param
	P      *nn.Param
	Num    int
	L      []*nn.Param
	Sub    nn.Model
	Text   string
	Ptr    *TNode
	Val    TLeaf
	Ms     []nn.Model
	Vs     []TLeaf
	Mixed  []any
	Arr    [3]*nn.Param
	ArrM   [2]nn.Model
	Any    any
	Floats []float64
	Mp     map[string]*nn.Param
	Mi     map[int]nn.Model
	Ma     map[string]any
	Mo     map[float64]*nn.Param
	Mk     map[[2]int]nn.Model
	Sm     *sync.Map
	Buf    *nn.Buffer
	E      *embedding.Model
	Sh     embedding.Shared
	Tr     TTrav
	Trs    []TTrav
	ML     nn.ModuleList[*linear.Model]
	Plain  struct{ Q *nn.Param }
	Last   *nn.Param
}
type TLeaf struct {
	nn.Module
	id int
	P  *nn.Param
	Qs []*nn.Param
}
type TBase struct {
	nn.Module
	id int
	B  *nn.Param
}
type TTrav struct{ ps []*nn.Param }

func (t TTrav) TraverseParams(f func(*nn.Param)) {
	for _, p := range t.ps {
		f(p)
	}
}

// treeGen makes random models together with their description.
type treeGen struct {
	r      *rand.Rand
	ids    map[*nn.Param]int
	all    []*nn.Param
	models map[nn.Model]int
	nm     int
	maps   int // largest number of entries of a map
	left   int // remaining budget of parameters
	shared []sharedModel
}

// sharedModel is a model that may occur once more.
type sharedModel struct {
	m nn.Model
	d M
}

func (t *treeGen) mid() int { t.nm++; return t.nm }
func (t *treeGen) p(n int) bool {
	return t.r.Intn(n) == 0
}
func (t *treeGen) param() (*nn.Param, M) {
	if t.p(5) || t.left <= 0 {
		return nil, M{"k": "other"}
	}
	t.left--
	if len(t.all) > 0 && t.p(10) {
		q := t.all[t.r.Intn(len(t.all))]
		return q, M{"k": "param", "id": t.ids[q]}
	}
	q := nn.NewParam(mat.NewDense[float64](mat.WithShape(1, 1), mat.WithBacking([]float64{1})))
	t.reg(q)
	return q, M{"k": "param", "id": t.ids[q]}
}
func (t *treeGen) reg(q *nn.Param) {
	t.ids[q] = len(t.all) + 1
	t.all = append(t.all, q)
}
func (t *treeGen) leaf() (TLeaf, M) {
	l := TLeaf{id: t.mid()}
	var d M
	l.P, d = t.param()
	l.Qs = nil
	ds := []M{}
	for t.p(3) {
		q, d := t.param()
		l.Qs, ds = append(l.Qs, q), append(ds, d)
	}
	return l, M{"k": "model", "id": l.id, "parts": []M{{"k": "other"}, d, {"k": "list", "parts": ds}}}
}
func (t *treeGen) emb() (*embedding.Model, M) {
	e := embedding.New[float64](1+t.r.Intn(3), 1)
	ps := []int{}
	t.models[e] = t.mid()
	for i, w := range e.Weights {
		t.reg(w)
		if t.p(2) {
			x, err := e.Embedding(i)
			must(err)
			x.AccGrad(mat.Scalar(1.0))
			ps = append(ps, t.ids[w])
		}
	}
	return e, M{"k": "trav", "model": true, "id": t.models[e], "ps": ps}
}
func (t *treeGen) trav() (TTrav, M) {
	tr := TTrav{}
	ps := []int{}
	for t.p(2) && t.left > 0 {
		if q, _ := t.param(); q != nil {
			tr.ps, ps = append(tr.ps, q), append(ps, t.ids[q])
		}
	}
	return tr, M{"k": "trav", "model": false, "id": 0, "ps": ps}
}
func (t *treeGen) lin() (*linear.Model, M) {
	m := linear.New[float64](1, 1)
	t.reg(m.W)
	t.reg(m.B)
	t.models[m] = t.mid()
	return m, M{"k": "model", "id": t.models[m], "parts": []M{{"k": "param", "id": t.ids[m.W]}, {"k": "param", "id": t.ids[m.B]}}}
}

// model returns some model, possibly nil, now and then one that occurs elsewhere too.
func (t *treeGen) model(depth int) (nn.Model, M) {
	if len(t.shared) > 0 && t.p(10) {
		s := t.shared[t.r.Intn(len(t.shared))]
		return s.m, s.d
	}
	m, d := t.newModel(depth)
	if d["k"] != "other" && len(fmt.Sprint(d)) < 1000 {
		t.shared = append(t.shared, sharedModel{m, d})
	}
	return m, d
}

func (t *treeGen) newModel(depth int) (nn.Model, M) {
	switch k := t.r.Intn(8); {
	case k == 0:
		return nil, M{"k": "other"}
	case k == 1:
		var n *TNode
		return n, M{"k": "other"}
	case k == 2:
		return t.emb()
	case k <= 4:
		l, d := t.leaf()
		if t.p(2) {
			return l, d
		}
		return &l, d
	case k == 5:
		return t.lin()
	case k == 6:
		e, d := t.emb()
		t.models[embedding.Shared{Model: e}] = t.mid()
		d["id"] = t.models[embedding.Shared{Model: e}]
		return embedding.Shared{Model: e}, d
	default:
		if depth <= 0 {
			return nil, M{"k": "other"}
		}
		return t.node(depth - 1)
	}
}
func (t *treeGen) item(depth int) (any, M) {
	switch t.r.Intn(6) {
	case 0:
		p, d := t.param()
		return p, d
	case 1:
		return []any{nil, 3, "x", struct{}{}, 1.5, &struct{ A int }{}}[t.r.Intn(6)], M{"k": "other"}
	case 2:
		tr, d := t.trav()
		return tr, d
	case 3:
		x := 7
		return &x, M{"k": "other"}
	default:
		m, d := t.model(depth)
		return m, d
	}
}
func (t *treeGen) node(depth int) (*TNode, M) {
	n := &TNode{id: t.mid(), Num: 3, Text: "t", Floats: []float64{1}}
	parts := []M{}
	add := func(d M) { parts = append(parts, d) }
	n.TBase.id = t.mid()
	var d M
	n.B, d = t.param()
	add(M{"k": "model", "id": n.TBase.id, "parts": []M{d}})
	if t.p(2) {
		n.hidden, _ = t.param()
	}
	w := 2 + t.r.Intn(5) // how sparse this node is
	if t.p(w) {
		n.P, d = t.param()
		add(d)
	}
	list := func(k int, fn func() M) M {
		ds := []M{}
		for ; k > 0; k-- {
			ds = append(ds, fn())
		}
		return M{"k": "list", "parts": ds}
	}
	if t.p(w) {
		k := t.r.Intn(5)
		if t.p(6) {
			k, t.left = 12, t.left+12
		}
		add(list(k, func() M { p, d := t.param(); n.L = append(n.L, p); return d }))
	}
	if t.p(w) {
		n.Sub, d = t.model(depth)
		add(d)
	}
	if t.p(w) && depth > 0 {
		n.Ptr, d = t.node(depth - 1)
		add(d)
		for _, s := range t.shared {
			if q, ok := s.m.(*TNode); ok && q != nil && t.p(4) {
				n.Ptr, parts[len(parts)-1] = q, s.d
			}
		}
	}
	n.Val, d = t.leaf()
	add(d)
	if t.p(w) {
		add(list(t.r.Intn(5), func() M { p, d := t.model(depth - 1); n.Ms = append(n.Ms, p); return d }))
	}
	if t.p(w) {
		add(list(t.r.Intn(3), func() M { p, d := t.leaf(); n.Vs = append(n.Vs, p); return d }))
	}
	if t.p(w) {
		add(list(t.r.Intn(6), func() M { p, d := t.item(depth - 1); n.Mixed = append(n.Mixed, p); return d }))
	}
	if t.p(w) {
		j := 0
		add(list(3, func() M { p, d := t.param(); n.Arr[j] = p; j++; return d }))
	}
	if t.p(w) {
		j := 0
		add(list(2, func() M { p, d := t.model(depth - 1); n.ArrM[j] = p; j++; return d }))
	}
	if t.p(w) {
		if t.p(3) {
			var l []*nn.Param
			add(list(t.r.Intn(4), func() M { p, d := t.param(); l = append(l, p); return d }))
			n.Any = l
		} else {
			n.Any, d = t.item(depth)
			add(d)
		}
	}
	entries := func() int {
		if t.maps == 0 {
			return 0
		}
		return t.r.Intn(t.maps + 1)
	}
	mp := func(d M) M { d["k"] = "map"; return d }
	if t.p(w) {
		n.Mp = map[string]*nn.Param{}
		add(mp(list(entries(), func() M { p, d := t.param(); n.Mp[fmt.Sprint("k", len(n.Mp))] = p; return d })))
	}
	if t.p(w) {
		n.Mi = map[int]nn.Model{}
		add(mp(list(entries(), func() M { p, d := t.model(depth - 1); n.Mi[len(n.Mi)*3-2] = p; return d })))
	}
	if t.p(w) {
		n.Ma = map[string]any{}
		add(mp(list(entries(), func() M { p, d := t.item(depth - 1); n.Ma[fmt.Sprint("a", len(n.Ma))] = p; return d })))
	}
	if t.p(w) { // entries under keys of other types are not parts
		n.Mo = map[float64]*nn.Param{}
		for k := t.r.Intn(3); k > 0; k-- {
			n.Mo[float64(k)], _ = t.param()
		}
	}
	if t.p(w) {
		n.Mk = map[[2]int]nn.Model{}
		for k := t.r.Intn(3); k > 0; k-- {
			n.Mk[[2]int{k}], _ = t.model(0)
		}
	}
	if t.p(w) {
		n.Sm = &sync.Map{}
		if t.p(3) {
			p, _ := t.item(0)
			n.Sm.Store(0.5, p)
		}
		j := 0
		add(mp(list(entries(), func() M {
			p, d := t.item(depth - 1)
			j++
			if j%2 == 0 {
				n.Sm.Store(j, p)
			} else {
				n.Sm.Store(fmt.Sprint(j), p)
			}
			return d
		})))
	}
	if t.p(w) {
		n.Buf = nn.Buf(mat.Scalar(2.0))
	}
	if t.p(w) {
		n.E, d = t.emb()
		add(d)
	}
	var sd M
	if t.p(w) {
		n.Sh.Model, sd = t.emb()
		add(sd)
	} else {
		sd = M{"k": "trav", "model": true, "ps": []int{}, "id": -1} // all absent tables look the same
		add(sd)
	}
	if n.Sh.Model != nil {
		t.models[n.Sh] = sd["id"].(int)
	}
	n.Tr, d = t.trav()
	add(d)
	if t.p(w) {
		add(list(t.r.Intn(3), func() M { p, d := t.trav(); n.Trs = append(n.Trs, p); return d }))
	}
	if t.p(w) {
		add(list(t.r.Intn(3), func() M { p, d := t.lin(); n.ML = append(n.ML, p); return d }))
	}
	if t.p(w) {
		n.Plain.Q, _ = t.param()
	}
	if t.p(w) {
		n.Last, d = t.param()
		add(d)
	}
	return n, M{"k": "model", "id": n.id, "parts": parts}
}

func (t *treeGen) idOf(m nn.Model) int {
	switch x := m.(type) {
	case *TNode:
		return x.id
	case TNode:
		return x.id
	case TLeaf:
		return x.id
	case *TLeaf:
		return x.id
	case TBase:
		return x.id
	case *TBase:
		return x.id
	case embedding.Shared:
		if x.Model == nil {
			return -1
		}
	}
	return t.models[m]
}

func newTreeGen(r *rand.Rand, maps int) *treeGen {
	return &treeGen{r: r, ids: map[*nn.Param]int{}, models: map[nn.Model]int{}, maps: maps, left: 4 + r.Intn(24)}
}

func nums[T any](xs []T, f func(T) int) []int {
	out := []int{}
	for _, x := range xs {
		out = append(out, f(x))
	}
	return out
}

// streamBox is a model whose parameters change.
type streamBox struct {
	nn.Module
	N     nn.Model
	Extra []*nn.Param
	Table *embedding.Model
}

func (b *streamBox) change(r *rand.Rand, ids map[*nn.Param]int) {
	fresh := func() *nn.Param {
		p := nn.NewParam(mat.Scalar(1.0))
		ids[p] = len(ids) + 1
		return p
	}
	switch n := len(b.Extra); r.Intn(5) {
	case 0, 1:
		b.Extra = append(b.Extra, fresh())
	case 2:
		if n > 0 {
			b.Extra[r.Intn(n)] = fresh()
		}
	case 3:
		if n > 0 {
			b.Extra = b.Extra[1:]
		}
	case 4:
		w := b.Table.Weights[r.Intn(len(b.Table.Weights))]
		if w.HasGrad() {
			b.Table.ZeroGrad()
		} else {
			e, err := b.Table.Embedding(r.Intn(len(b.Table.Weights)))
			if err != nil {
				panic(err)
			}
			e.AccGrad(mat.Scalar(1.0))
		}
	}
}

func init() {
	commands["traverse"] = func(c *Ctx) {
		c.Cases(func(i int, r *rand.Rand) {
			rec := M{"mode": "trav", "key": "traverse", "model": M{}, "all": []int{}, "own": []int{}, "models": []int{}, "stream": []int{}, "had": []int{}, "left": []int{}}
			c.Begin(rec)
			t := newTreeGen(r, 3)
			var m nn.Model
			var d M
			switch {
			case i%25 == 7:
				m, d = t.emb()
			case i%25 == 8:
				e, dd := t.emb()
				m, d = embedding.Shared{Model: e}, dd
				t.models[m] = dd["id"].(int)
			default:
				n, dd := t.node(2)
				m, d = n, dd
			}
			rec["model"] = d
			pid := func(p *nn.Param) int { return t.ids[p] }
			rec["outcome"] = guarded(func() {
				for _, p := range t.all { // rows of embedding tables have theirs already
					emb := false
					for mm := range t.models {
						if e, ok := mm.(*embedding.Model); ok {
							for _, w := range e.Weights {
								emb = emb || w == p
							}
						}
					}
					if !emb {
						p.AccGrad(mat.Scalar(1.0))
					}
				}
				var all, own, str []*nn.Param
				var ms []nn.Model
				nn.ForEachParam(m, func(p *nn.Param) { all = append(all, p) })
				nn.ForEachParamStrict(m, func(p *nn.Param) { own = append(own, p) })
				nn.Apply(m, func(x nn.Model) { ms = append(ms, x) })
				for p := range nn.Parameters(m)(context.Background()) {
					str = append(str, p)
				}
				rec["all"], rec["own"], rec["stream"] = nums(all, pid), nums(own, pid), nums(str, pid)
				rec["models"] = nums(ms, t.idOf)
				with := func() []int {
					out := []int{}
					for _, p := range t.all {
						if p.HasGrad() {
							out = append(out, t.ids[p])
						}
					}
					return out
				}
				rec["had"] = with()
				nn.ZeroGrad(m)
				rec["left"] = with()
			})
			c.Emit(rec)
		})
	}
	commands["stream"] = func(c *Ctx) {
		leaks := 0
		c.Cases(func(i int, r *rand.Rand) {
			if leaks > 2 { // each costs time, and says the same
				return
			}
			rec := M{"mode": "stream", "key": []string{"stream/model", "stream/list"}[i%2], "want": []int{}, "ev": []M{}, "left": 0, "reader": "reads"}
			c.Begin(rec)
			t := newTreeGen(r, 1)
			inner, _ := t.node(2)
			n := &streamBox{N: inner, Table: embedding.New[float64](3, 1)}
			for _, p := range n.Table.Weights {
				t.ids[p] = len(t.ids) + 1
			}
			ofModel := nn.Parameters(n)
			// the model changes after its parameters have been streamed
			for k := r.Intn(3); k >= 0; k-- {
				if r.Intn(2) == 0 {
					for range ofModel(context.Background()) {
					}
				}
				n.change(r, t.ids)
			}
			var want []*nn.Param
			nn.ForEachParam(n, func(p *nn.Param) { want = append(want, p) })
			pid := func(p *nn.Param) int { return t.ids[p] }
			rec["want"] = nums(want, pid)
			cancelAt := -1
			leave := false
			if r.Intn(4) > 0 {
				cancelAt = r.Intn(len(want) + 2)
				leave = r.Intn(2) == 0
			}
			other := r.Intn(4) == 0 // cancelled by somebody else, at any moment
			base := runtime.NumGoroutine()
			rec["outcome"] = guarded(func() {
				log := &eventLog{}
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				if r.Intn(8) == 0 { // already cancelled
					log.add(M{"e": "cancel", "n": 0})
					cancel()
				}
				var fn nn.ParamChannelFunc
				if i%2 == 0 {
					fn = ofModel
				} else {
					fn = nn.StreamParams(want)
				}
				ch := fn(ctx)
				if r.Intn(3) == 0 { // another stream of the same parameters at the same time
					ctx2, cancel2 := context.WithCancel(context.Background())
					ch2 := fn(ctx2)
					for k := r.Intn(3); k > 0; k-- {
						<-ch2
					}
					defer cancel2()
					if r.Intn(2) == 0 {
						cancel2()
					}
				}
				if other && cancelAt >= 0 {
					d := time.Duration(r.Intn(200)) * time.Microsecond
					go func() {
						time.Sleep(d)
						log.add(M{"e": "cancel", "n": 0})
						cancel()
					}()
				}
				for k := 0; ; k++ {
					if k == cancelAt && !other {
						log.add(M{"e": "cancel", "n": 0})
						cancel()
						if leave {
							rec["reader"] = "leaves"
							break
						}
						if r.Intn(2) == 0 {
							time.Sleep(50 * time.Microsecond)
						}
					}
					p, ok := <-ch
					if !ok {
						log.add(M{"e": "close", "n": 0})
						break
					}
					log.add(M{"e": "recv", "n": t.ids[p]})
				}
				log.mu.Lock()
				rec["ev"] = append([]M{}, log.ev...)
				log.mu.Unlock()
			})
			left := 0
			for k := 0; k < 200; k++ {
				if left = runtime.NumGoroutine() - base; left <= 0 {
					break
				}
				time.Sleep(time.Duration(50+k*50) * time.Microsecond)
			}
			if left > 0 {
				leaks++
			} else {
				left = 0
			}
			rec["left"] = left
			c.Emit(rec)
		})
	}
}
