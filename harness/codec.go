package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/convolution/convolution1d"
	"github.com/nlpodyssey/spago/nn/convolution/convolution2d"
	"github.com/nlpodyssey/spago/nn/crf"
	"github.com/nlpodyssey/spago/nn/dropout"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/gmlp"
	"github.com/nlpodyssey/spago/nn/pooling"
	"github.com/nlpodyssey/spago/optimizers"
)

// content describes everything that saving keeps of an object, bit by bit.
func content(x any) string {
	var sb strings.Builder
	tensor := func(t mat.Tensor) {
		switch d := t.Value().Data().(type) {
		default:
			if b, ok := d.(interface{ BitSize() int }); ok && b.BitSize() == 32 {
				fmt.Fprintf(&sb, "f32%v", t.Shape())
				for _, v := range t.Value().Data().F32() {
					fmt.Fprintf(&sb, " %x", math.Float32bits(v))
				}
			} else {
				fmt.Fprintf(&sb, "f64%v", t.Shape())
				for _, v := range t.Value().Data().F64() {
					fmt.Fprintf(&sb, " %x", math.Float64bits(v))
				}
			}
		}
		fmt.Fprintf(&sb, " grad=%v;", t.RequiresGrad())
	}
	param := func(p *nn.Param) {
		if p == nil {
			sb.WriteString("nil;")
			return
		}
		tensor(p)
		if p.State != nil {
			fmt.Fprintf(&sb, "state %T:", p.State)
			for _, m := range stateMats(p.State) {
				if m == nil {
					sb.WriteString("nil;")
				} else {
					tensor(m)
				}
			}
		}
	}
	switch v := x.(type) {
	case *mat.Dense[float32]:
		tensor(v)
	case *mat.Dense[float64]:
		tensor(v)
	case *nn.Param:
		param(v)
	case *CkModel:
		fmt.Fprintf(&sb, "first ")
		param(v.First)
		if v.A != nil {
			fmt.Fprintf(&sb, "A%d ", len(v.A.Ps))
			for _, p := range v.A.Ps {
				param(p)
			}
		}
		for _, b := range v.B {
			fmt.Fprintf(&sb, "B%d ", len(b.Ps))
			for _, p := range b.Ps {
				param(p)
			}
		}
		if v.E != nil {
			fmt.Fprintf(&sb, "E%d,%d,%d ", v.E.Size, v.E.Dim, len(v.E.Weights))
			for _, p := range v.E.Weights {
				param(p)
			}
		}
		if v.Stat != nil {
			fmt.Fprintf(&sb, "Stat ")
			tensor(v.Stat)
		}
	case []mat.Tensor:
		for _, t := range v {
			tensor(t)
		}
	case *LayerBox:
		describe(&sb, reflect.ValueOf(v), tensor, param)
		for _, t := range v.apply() {
			tensor(t)
		}
	default:
		check(fmt.Errorf("content of %T", x))
	}
	if sb.Len() > 3000 { // in short
		return fmt.Sprintf("%x %s", sha256.Sum256([]byte(sb.String())), sb.String()[:1000])
	}
	return sb.String()
}

// LayerBox is a user-defined model made of a library layer, and an input to try it with.
type LayerBox struct {
	nn.Module
	DT      string
	N, R, C int
	Layers  nn.ModuleList[nn.StandardModel]
	Other   nn.Model
}

func init() { gob.Register(&LayerBox{}) }

// describe prints all settings, parameters and sub-models.
func describe(sb *strings.Builder, v reflect.Value, tensor func(mat.Tensor), param func(*nn.Param)) {
	if !v.IsValid() {
		sb.WriteString("nil;")
		return
	}
	switch x := v.Interface().(type) {
	case *nn.Param:
		param(x)
		return
	case *nn.Buffer:
		if x == nil {
			sb.WriteString("nil;")
		} else {
			tensor(x)
		}
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			sb.WriteString("nil;")
			return
		}
		describe(sb, v.Elem(), tensor, param)
	case reflect.Slice:
		fmt.Fprintf(sb, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			describe(sb, v.Index(i), tensor, param)
		}
		sb.WriteString("]")
	case reflect.Struct:
		fmt.Fprintf(sb, "%s{", v.Type())
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() && f.Name != "Module" {
				sb.WriteString(f.Name + ":")
				describe(sb, v.Field(i), tensor, param)
			}
		}
		sb.WriteString("}")
	default:
		fmt.Fprintf(sb, "%v;", v.Interface())
	}
}

func (b *LayerBox) inputs(n, r, c int) []mat.Tensor {
	xs := make([]mat.Tensor, n)
	for i := range xs {
		v := make([]float64, r*c)
		for k := range v {
			v[k] = math.Sin(float64(1+i*7+k*3)) * 1.5
		}
		xs[i] = newMat(b.DT, []int{r, c}, v, false)
	}
	return xs
}

func (b *LayerBox) apply() []mat.Tensor {
	if b.N == 0 {
		return nil
	}
	xs := b.inputs(b.N, b.R, b.C)
	switch m := b.Other.(type) {
	case nil:
		return b.Layers.Forward(xs...)
	case *crf.Model:
		path := m.Decode(xs)
		return []mat.Tensor{m.NegativeLogLoss(xs, path)}
	case *selfattention.Model:
		ys, ws, c := m.Forward(selfattention.Cache{}, xs, xs)
		return append(append(ys, ws...), c[0], c[1])
	case *multiheadattention.Model:
		ys, _, _ := m.Forward(nil, xs, xs)
		return ys
	}
	panic("apply")
}

// fits tells whether the layer accepts the inputs of the box.
func (b *LayerBox) fits() bool {
	win := func(n, k, stride int) bool { return n >= k && (n-k)%stride == 0 }
	for _, l := range b.Layers {
		switch m := l.(type) {
		case *convolution1d.Model:
			if b.R != m.Config.KernelSizeX || !win(b.C, m.Config.KernelSizeY, m.Config.YStride) {
				return false
			}
		case *convolution2d.Model:
			if !win(b.R, m.Config.KernelSizeX, m.Config.XStride) || !win(b.C, m.Config.KernelSizeY, m.Config.YStride) {
				return false
			}
		case *pooling.MaxPooling:
			if b.R%m.Rows != 0 || b.C%m.Columns != 0 {
				return false
			}
		case *gmlp.Model:
			if b.N > m.Config.SeqLen {
				return false
			}
		}
	}
	return true
}

func randBox(r *rand.Rand) *LayerBox {
	g := newLgen(r)
	b := &LayerBox{DT: g.dt}
	if r.Intn(5) == 0 {
		in := 2 * (1 + r.Intn(2))
		switch r.Intn(3) {
		case 0:
			b.Other = pickT(g.dt, crf.New[float32], crf.New[float64])(in)
		case 1:
			b.Other = pickT(g.dt, selfattention.New[float32], selfattention.New[float64])(selfattention.Config{InputSize: in, QuerySize: 3, KeySize: 3,
				ValueSize: dim(g.gen), ScaleFactor: tenth(g.gen, 3, 12), UseCausalMask: r.Intn(2) == 0, IsCrossAttention: r.Intn(3) == 0})
		default:
			b.Other = pickT(g.dt, multiheadattention.New[float32], multiheadattention.New[float64])(in, 1+r.Intn(2), r.Intn(2) == 0, r.Intn(3) == 0)
		}
		b.N, b.R, b.C = 1+r.Intn(4), in, 1
	} else {
		d := layerTable[r.Intn(len(layerTable))]
		m, n, sh := d.gen(g)
		b.N, b.R, b.C = n, sh[0], sh[1]
		if d.name == "dropout" && r.Intn(2) == 0 {
			m, b.N = dropout.New(tenth(g.gen, 1, 9)), 0
		}
		b.Layers = append(b.Layers, m)
		if d.name != "activation" {
			g.fill(m)
		}
		if r.Intn(3) == 0 {
			b.Layers = append(b.Layers, activation.New(g.act()))
		}
	}
	if b.Other != nil {
		g.fill(b.Other)
	}
	if !b.fits() {
		b.N = 0
	}
	return b
}

// weird returns values that are easily damaged.
func weird(r *rand.Rand, n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		switch r.Intn(9) {
		case 0:
			out[i] = math.Inf(1)
		case 1:
			out[i] = math.Inf(-1)
		case 2:
			out[i] = math.NaN()
		case 3:
			out[i] = math.Copysign(0, -1)
		case 4:
			out[i] = 0
		case 5:
			out[i] = math.SmallestNonzeroFloat64 * float64(r.Intn(5))
		case 6:
			out[i] = math.MaxFloat64
		default:
			out[i] = r.NormFloat64()
		}
	}
	return out
}

func randShape(r *rand.Rand) []int {
	switch r.Intn(8) {
	case 0:
		return [][]int{{0, 0}, {0, 1}, {1, 0}, {3, 0}}[r.Intn(4)]
	case 1:
		return []int{1, 1}
	case 2:
		return []int{1 + r.Intn(12), 1}
	case 3:
		return []int{1, 1 + r.Intn(12)}
	default:
		if r.Intn(25) == 0 { // sizes that take several bytes
			n := []int{100 + r.Intn(60), 250 + r.Intn(20), 1000 + r.Intn(100), 33000, 66000}[r.Intn(4+r.Intn(2))]
			return [][]int{{n, 1}, {1, n}, {n / 3, 3}, {2, n / 2}}[r.Intn(4)]
		}
		return []int{1 + r.Intn(6), 1 + r.Intn(6)}
	}
}

func randObject(r *rand.Rand, kind string) any {
	dt := []string{"f32", "f64"}[r.Intn(2)]
	dense := func() mat.Matrix {
		sh := randShape(r)
		return newMat(dt, sh, weird(r, size(sh)), r.Intn(2) == 0)
	}
	switch kind {
	case "tensor":
		return dense()
	case "param":
		p := nn.NewParam(dense())
		if r.Intn(3) == 0 {
			p.WithGrad(false)
		}
		if p.Size() > 0 && r.Intn(2) == 0 {
			train(r, []*nn.Param{p}, dt)
		}
		return p
	case "tensors":
		var ts []mat.Tensor
		for n := 1 + r.Intn(3); n > 0; n-- {
			ts = append(ts, dense())
		}
		return ts
	}
	if kind == "layer" {
		b := randBox(r)
		if r.Intn(4) == 0 {
			var ps []*nn.Param
			nn.ForEachParam(b, func(p *nn.Param) { ps = append(ps, p) })
			train(r, ps, b.DT)
		}
		return b
	}
	m := newCkModel(r, dt, true)
	if r.Intn(2) == 0 {
		train(r, m.params(), dt)
	}
	if m.E != nil && r.Intn(2) == 0 {
		e, err := m.E.Embedding(0)
		must(err)
		e.AccGrad(newMat(dt, []int{m.E.Dim, 1}, weird(r, m.E.Dim), false))
	}
	return m
}

// train gives parameters a history, so that they have optimizer states.
func train(r *rand.Rand, ps []*nn.Param, dt string) {
	name := methodNames[r.Intn(len(methodNames))]
	var o *method
	if dt == "f32" {
		o = newMethod[float32](name, randConfig(r))
	} else {
		o = newMethod[float64](name, randConfig(r))
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		for _, p := range ps {
			if r.Intn(3) > 0 && p.Size() > 0 {
				p.AccGrad(newMat(dt, p.Shape(), (&gen{r: r}).uni(p.Size()), false))
			}
		}
		must(optimizers.New(nn.StreamParams(ps), o.st).Optimize())
		o.tick()
	}
}

// mutateObject changes values in place.
func mutateObject(r *rand.Rand, x any) {
	set := func(t mat.Tensor) {
		m := t.Value().(mat.Matrix)
		if m.Size() == 0 {
			return
		}
		m.ProdScalarInPlace(0.5).AddScalarInPlace(r.NormFloat64())
	}
	switch v := x.(type) {
	case mat.Matrix:
		if p, ok := x.(*nn.Param); ok {
			set(p)
			for _, m := range stateMats(p.State) {
				if m != nil {
					set(m)
				}
			}
			if r.Intn(3) == 0 {
				p.State = nil
			}
			return
		}
		set(v)
	case []mat.Tensor:
		set(v[r.Intn(len(v))])
	case *LayerBox:
		nn.ForEachParam(v, func(p *nn.Param) {
			if r.Intn(2) == 0 {
				set(p)
			}
		})
	case *CkModel:
		for _, p := range v.params() {
			if r.Intn(2) == 0 {
				mutateObject(r, p)
			}
		}
		if v.Stat != nil {
			set(v.Stat)
		}
	}
}

type failWriter struct {
	n     int
	short bool
}

func (w *failWriter) Write(b []byte) (int, error) {
	if len(b) <= w.n {
		w.n -= len(b)
		return len(b), nil
	}
	k := w.n
	w.n = 0
	if w.short {
		return k, io.ErrShortWrite
	}
	return k, errors.New("disk full")
}

type failReader struct {
	b   []byte
	err error
}

func (f *failReader) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, f.err
	}
	n := copy(p, f.b)
	f.b = f.b[n:]
	return n, nil
}

// slowReader delivers a few bytes at a time.
type slowReader struct {
	b []byte
	r *rand.Rand
}

func (f *slowReader) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, io.EOF
	}
	n := 1 + f.r.Intn(7)
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], f.b)
	f.b = f.b[n:]
	return n, nil
}

func loadAs(x any, r io.Reader) (any, error) {
	switch x.(type) {
	case *mat.Dense[float32]:
		return nn.Load[*mat.Dense[float32]](r)
	case *mat.Dense[float64]:
		return nn.Load[*mat.Dense[float64]](r)
	case *nn.Param:
		return nn.Load[*nn.Param](r)
	case []mat.Tensor:
		return nn.Load[[]mat.Tensor](r)
	case *CkModel:
		return nn.Load[*CkModel](r)
	case *LayerBox:
		return nn.Load[*LayerBox](r)
	}
	panic("loadAs")
}

func loadFileAs(x any, f string) (any, error) {
	switch x.(type) {
	case *mat.Dense[float32]:
		return nn.LoadFromFile[*mat.Dense[float32]](f)
	case *mat.Dense[float64]:
		return nn.LoadFromFile[*mat.Dense[float64]](f)
	case *nn.Param:
		return nn.LoadFromFile[*nn.Param](f)
	case []mat.Tensor:
		return nn.LoadFromFile[[]mat.Tensor](f)
	case *CkModel:
		return nn.LoadFromFile[*CkModel](f)
	case *LayerBox:
		return nn.LoadFromFile[*LayerBox](f)
	}
	panic("loadFileAs")
}

func unmarshalAs(x any, b []byte) (any, error) {
	switch x.(type) {
	case *mat.Dense[float32]:
		d := new(mat.Dense[float32])
		return d, d.UnmarshalBinary(b)
	case *mat.Dense[float64]:
		d := new(mat.Dense[float64])
		return d, d.UnmarshalBinary(b)
	}
	panic("unmarshalAs")
}

// codecRun is a history of saves and loads over three streams: encoded bytes
// of single tensors (1), a buffer of objects one after the other (2), a file (3).
type codecRun struct {
	c     *Ctx
	r     *rand.Rand
	objs  map[int]any
	next  int
	ev    []M
	bytes [][]byte // stream 1
	typ1  []any
	buf   *bytes.Buffer // stream 2
	typ2  []any
	file  string // stream 3 holds one object
	typ3  any
}

func (q *codecRun) note(e string, id, s int, err error, bad []int) {
	mem := [][2]any{}
	for k := 1; k <= q.next; k++ {
		if o, ok := q.objs[k]; ok {
			mem = append(mem, [2]any{k, content(o)})
		}
	}
	c := ""
	if o, ok := q.objs[id]; ok {
		c = content(o)
	}
	if bad == nil {
		bad = []int{}
	}
	q.ev = append(q.ev, M{"e": e, "id": id, "s": s, "c": c, "err": err != nil, "mem": mem, "bad": bad})
}

// loaded notes a load, which has made object q.next unless it failed.
func (q *codecRun) loaded(s int, err error) {
	id := q.next
	if err != nil {
		id = 0
	}
	q.note("load", id, s, err, nil)
}

func (q *codecRun) some(kinds ...string) int {
	var ids []int
	for k := 1; k <= q.next; k++ {
		if _, ok := q.objs[k].(encodingTensor); ok || q.objs[k] != nil && len(kinds) == 0 {
			ids = append(ids, k)
		}
	}
	if len(ids) == 0 {
		return 0
	}
	return ids[q.r.Intn(len(ids))]
}

type encodingTensor interface {
	MarshalBinary() ([]byte, error)
	mat.Matrix
}

func (q *codecRun) step(cuts bool) {
	r := q.r
	switch op := r.Intn(10); {
	case op == 0 || len(q.objs) == 0:
		q.next++
		q.objs[q.next] = randObject(r, []string{"tensor", "tensor", "param", "tensors", "model", "layer", "layer"}[r.Intn(7)])
		q.note("new", q.next, 0, nil, nil)
	case op == 1:
		id := q.some()
		mutateObject(r, q.objs[id])
		q.note("mutate", id, 0, nil, nil)
	case op <= 4: // save
		switch s := 1 + r.Intn(3); s {
		case 1:
			id := q.some("tensor")
			if id == 0 {
				return
			}
			if _, ok := q.objs[id].(*nn.Param); ok {
				return // has no binary form of its own
			}
			b, err := q.objs[id].(encodingTensor).MarshalBinary()
			if err == nil {
				q.bytes, q.typ1 = append(q.bytes, b), append(q.typ1, q.objs[id])
			}
			q.note("save", id, 1, err, nil)
		case 2:
			id := q.some()
			err := nn.Dump(q.objs[id], q.buf)
			q.typ2 = append(q.typ2, q.objs[id])
			q.note("save", id, 2, err, nil)
		case 3:
			if q.typ3 != nil {
				return
			}
			id := q.some()
			err := dumpFile(q.objs[id], q.file)
			q.typ3 = q.objs[id]
			q.note("save", id, 3, err, nil)
		}
	case op <= 8: // load
		switch s := 1 + r.Intn(3); s {
		case 1:
			if len(q.bytes) == 0 {
				return
			}
			b, t := q.bytes[0], q.typ1[0]
			o, err := unmarshalAs(t, b)
			if err == nil {
				q.bytes, q.typ1 = q.bytes[1:], q.typ1[1:]
				q.next++
				q.objs[q.next] = o
			}
			q.loaded(1, err)
			if r.Intn(2) == 0 { // what becomes of the encoded bytes concerns nobody
				for k := range b {
					b[k] ^= 0xff
				}
				q.note("scribble", 0, 1, nil, nil)
			}
		case 2:
			if len(q.typ2) == 0 {
				return
			}
			var o any
			var err error
			t := q.typ2[0]
			if len(q.typ2) == 1 && r.Intn(2) == 0 { // a reader that delivers little by little
				b := append([]byte{}, q.buf.Bytes()...)
				q.buf.Reset()
				o, err = loadAs(t, &slowReader{b, r})
			} else if r.Intn(3) == 0 {
				br := bufio.NewReaderSize(q.buf, 16+r.Intn(100))
				o, err = loadAs(t, br)
				rest, _ := io.ReadAll(br)
				q.buf = bytes.NewBuffer(rest)
			} else {
				o, err = loadAs(t, q.buf)
			}
			if err == nil {
				q.typ2 = q.typ2[1:]
				q.next++
				q.objs[q.next] = o
			}
			q.loaded(2, err)
		case 3:
			if q.typ3 == nil {
				return
			}
			o, err := loadFileAs(q.typ3, q.file)
			if err == nil {
				q.next++
				q.objs[q.next] = o
				q.typ3 = nil
			}
			q.loaded(3, err)
		}
	default:
		if !cuts {
			return
		}
		q.damage()
	}
}

func dumpFile(x any, f string) error {
	switch v := x.(type) {
	case *CkModel:
		return nn.DumpToFile(v, f)
	case *nn.Param:
		return nn.DumpToFile(v, f)
	case []mat.Tensor:
		return nn.DumpToFile(v, f)
	case *mat.Dense[float32]:
		return nn.DumpToFile(v, f)
	}
	return nn.DumpToFile(x, f)
}

// damage tries saves and loads that cannot succeed; it reports the positions where one did.
func (q *codecRun) damage() {
	r := q.r
	id := q.some()
	x := q.objs[id]
	var bad []int
	var buf bytes.Buffer
	must(nn.Dump(x, &buf))
	full := buf.Bytes()
	positions := func(n int) []int {
		if n <= 120 || r.Intn(12) == 0 && n < 2500 {
			return r.Perm(n)
		}
		ps := []int{0, 1, n - 1, n - 2}
		for k := 0; k < 40; k++ {
			ps = append(ps, r.Intn(n))
		}
		return ps
	}
	switch kind := r.Intn(8); kind {
	case 0: // truncated binary form
		t, ok := x.(encodingTensor)
		if _, isp := x.(*nn.Param); isp || !ok {
			return
		}
		b, err := t.MarshalBinary()
		must(err)
		for _, n := range positions(len(b)) {
			cut := b[:n]
			if r.Intn(2) == 0 {
				cut = append(make([]byte, 0, n), cut...)
			}
			if _, err := unmarshalAs(x, cut); err == nil {
				bad = append(bad, n)
			}
		}
		q.note("badload", 0, 1, errors.New("expected"), bad)
	case 1: // truncated stream
		for _, n := range positions(len(full)) {
			if _, err := loadAs(x, bytes.NewReader(full[:n])); err == nil {
				bad = append(bad, n)
			}
		}
		q.note("badload", 0, 2, errors.New("expected"), bad)
	case 2: // failing reader
		for _, n := range positions(len(full)) {
			if _, err := loadAs(x, &failReader{full[:n], errors.New("bad sector")}); err == nil {
				bad = append(bad, n)
			}
		}
		q.note("badload", 0, 2, errors.New("expected"), bad)
	case 3: // failing writer
		for _, n := range positions(len(full)) {
			if nn.Dump(x, &failWriter{n, r.Intn(2) == 0}) == nil {
				bad = append(bad, n)
			}
		}
		q.note("badload", 0, 2, errors.New("expected"), bad)
	case 4: // files
		f := filepath.Join(q.c.Dir, "cut")
		for _, n := range positions(len(full))[:4] {
			check(os.WriteFile(f, full[:n], 0o600))
			if _, err := loadFileAs(x, f); err == nil {
				bad = append(bad, n)
			}
		}
		os.Remove(f)
		if _, err := loadFileAs(x, f); err == nil {
			bad = append(bad, -1)
		}
		if dumpFile(x, filepath.Join(q.c.Dir, "none", "cut")) == nil {
			bad = append(bad, -2)
		}
		q.note("badload", 0, 3, errors.New("expected"), bad)
	case 6: // another type of elements
		t, ok := x.(encodingTensor)
		if _, isp := x.(*nn.Param); isp || !ok {
			return
		}
		b, err := t.MarshalBinary()
		must(err)
		if _, is32 := x.(*mat.Dense[float32]); is32 {
			if new(mat.Dense[float64]).UnmarshalBinary(b) == nil {
				bad = append(bad, -4)
			}
			if _, err := nn.Load[*mat.Dense[float64]](bytes.NewReader(full)); err == nil {
				bad = append(bad, -5)
			}
		} else {
			if new(mat.Dense[float32]).UnmarshalBinary(b) == nil {
				bad = append(bad, -4)
			}
			if _, err := nn.Load[*mat.Dense[float32]](bytes.NewReader(full)); err == nil {
				bad = append(bad, -5)
			}
		}
		q.note("badload", 0, 1, errors.New("expected"), bad)
	case 7: // bytes that changed: an error, or a tensor whose parts fit together
		t, ok := x.(encodingTensor)
		if _, isp := x.(*nn.Param); isp || !ok {
			return
		}
		b, err := t.MarshalBinary()
		must(err)
		for _, n := range positions(len(b)) {
			if n >= len(b) || n < 0 {
				continue
			}
			c := append(make([]byte, 0, len(b)), b...)
			switch r.Intn(3) {
			case 0:
				c[n] ^= 1 << r.Intn(8)
			case 1:
				c[n] = byte(r.Intn(256))
			default:
				c[n] = []byte{0, 1, 2, 0x7f, 0x80, 0xff}[r.Intn(6)]
			}
			if !sound(x, c) {
				bad = append(bad, n)
			}
		}
		q.note("badload", 0, 1, errors.New("expected"), bad)
	case 5: // a full disk
		if st, err := os.Stat("/dev/full"); err != nil || st.Mode()&os.ModeCharDevice == 0 {
			return
		}
		if dumpFile(x, "/dev/full") == nil {
			bad = append(bad, -3)
		}
		q.note("badload", 0, 3, errors.New("expected"), bad)
	}
}

// sound loads damaged bytes: this fails, or gives a tensor that can be used.
func sound(x any, b []byte) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			ok = false
		}
	}()
	o, err := unmarshalAs(x, b)
	if err != nil {
		return true
	}
	m := o.(mat.Matrix)
	sh := m.Shape()
	if len(sh) == 0 {
		return m.Data() == nil || m.Data().Len() == m.Size()
	}
	for _, d := range sh {
		if d < 0 {
			return false
		}
	}
	if m.Data().Len() != size(sh) || m.Size() != size(sh) {
		return false
	}
	if len(sh) == 2 && m.Size() > 0 {
		m.At(sh[0]-1, sh[1]-1)
	}
	return m.Clone().Size() == m.Size()
}

// Twins are two models that share a table: it is saved once, with the first of them.
type Twins struct {
	nn.Module
	E    *embedding.Model
	P    *nn.Param
	S    embedding.Shared
	Last *nn.Param
}

// runSharedTable saves a model that shares a table and loads it, into nothing or over another model.
func runSharedTable(c *Ctx, r *rand.Rand) {
	dt := []string{"f32", "f64"}[r.Intn(2)]
	rec := M{"mode": "shared", "key": "codec-shared", "c": "", "back": "", "keeps": false, "none": 0, "accepts": false, "refuses": false, "over": false}
	c.Begin(rec)
	rec["outcome"] = guarded(func() {
		fill := func() *Twins {
			mk := func() *nn.Param {
				sh := []int{1 + r.Intn(3), 1 + r.Intn(3)}
				vs := make([]float64, size(sh))
				for i := range vs {
					vs[i] = float64(r.Intn(200)-100) / 8
				}
				return nn.NewParam(newMat(dt, sh, vs, false))
			}
			t := &Twins{P: mk(), Last: mk()}
			if dt == "f32" {
				t.E = embedding.New[float32](1+r.Intn(4), 1+r.Intn(3))
			} else {
				t.E = embedding.New[float64](1+r.Intn(4), 1+r.Intn(3))
			}
			for _, w := range t.E.Weights {
				w.Value().(mat.Matrix).AddScalarInPlace(float64(r.Intn(100)) / 4)
			}
			t.S = embedding.Shared{Model: t.E}
			return t
		}
		says := func(t *Twins) string { return content(&CkModel{E: t.E, First: t.P}) + content(t.Last) }
		m := fill()
		rec["c"] = says(m)
		b, err := m.S.MarshalBinary()
		must(err)
		rec["none"] = len(b)
		var buf bytes.Buffer
		must(nn.Dump(m, &buf))
		if r.Intn(2) == 0 {
			n, err := nn.Load[*Twins](&buf)
			must(err)
			rec["back"], rec["keeps"] = says(n), n.S.Model == nil
		} else { // over a model that shares another table
			rec["over"] = true
			n := &Twins{}
			other := fill()
			n.S = other.S
			was := content(&CkModel{E: other.E})
			must(gob.NewDecoder(&buf).Decode(n))
			rec["back"], rec["keeps"] = says(n), n.S.Model == other.E && content(&CkModel{E: n.S.Model}) == was
		}
		rec["accepts"] = m.S.UnmarshalBinary(nil) == nil && m.S.UnmarshalBinary([]byte{}) == nil
		junk := make([]byte, 1+r.Intn(20))
		r.Read(junk)
		rec["refuses"] = m.S.UnmarshalBinary(junk) != nil && says(m) == rec["c"] && m.S.Model == m.E
	})
	c.Emit(rec)
}

func init() {
	gob.Register(&CkModel{})
	gob.Register(&Twins{})
	commands["codec-shared"] = func(c *Ctx) { c.Cases(func(i int, r *rand.Rand) { runSharedTable(c, r) }) }
	for name, cuts := range map[string]bool{"codec": false, "codec-cut": true} {
		commands[name] = func(c *Ctx) {
			c.Cases(func(i int, r *rand.Rand) {
				rec := M{"mode": "codec", "key": name, "ev": []M{}}
				c.Begin(rec)
				q := &codecRun{c: c, r: r, objs: map[int]any{}, buf: &bytes.Buffer{}, file: filepath.Join(c.Dir, "obj")}
				rec["outcome"] = guarded(func() {
					for n := 4 + r.Intn(10); n > 0; n-- {
						q.step(cuts)
						if cuts && r.Intn(2) == 0 && len(q.objs) > 0 {
							q.damage()
						}
					}
				})
				if q.ev != nil {
					rec["ev"] = q.ev
				}
				c.Emit(rec)
			})
		}
	}
}
