// Command drv executes cases against the real spago code and records what
// happened as one JSON object per line. The specifications in ../spec decide
// whether the recorded behaviour is admissible; nothing is judged here.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strconv"
)

// F is a float64 that JSON-encodes with an exponent (so that the trace reader
// takes it for a real number) and can hold NaN and infinities.
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	v := float64(f)
	switch {
	case math.IsNaN(v):
		return []byte(`"NaN"`), nil
	case math.IsInf(v, 1):
		return []byte(`"+Inf"`), nil
	case math.IsInf(v, -1):
		return []byte(`"-Inf"`), nil
	}
	return []byte(strconv.FormatFloat(v, 'e', -1, 64)), nil
}

func Fs(vs []float64) []F {
	out := make([]F, len(vs))
	for i, v := range vs {
		out[i] = F(v)
	}
	return out
}

type M map[string]any

// Ctx is the state of one driver run.
type Ctx struct {
	out   *os.File
	curf  *os.File
	Seed  int64
	Tier  string
	From  int
	N     int
	Shard int
	Of    int
	In    string
	case_ int
	Dir   string
}

// Begin notes the case about to be executed, so that a crash can be attributed.
func (c *Ctx) Begin(m M) {
	b, err := json.Marshal(m)
	check(err)
	b = append([]byte(fmt.Sprintf("%d ", c.case_)), b...)
	_, err = c.curf.WriteAt(append(b, '\n'), 0) // one write: never torn by a crash
	check(err)
}

// Emit appends one line to the trace.
func (c *Ctx) Emit(m M) {
	b, err := json.Marshal(m)
	check(err)
	_, err = c.out.Write(append(b, '\n'))
	check(err)
}

// Cases runs fn for all case numbers of this shard, each with its own generator.
func (c *Ctx) Cases(fn func(i int, r *rand.Rand)) {
	for i := c.From; i < c.N; i++ {
		if i%c.Of != c.Shard {
			continue
		}
		c.case_ = i
		fn(i, rand.New(rand.NewSource(c.Seed*1000003+int64(i)*7919+17)))
	}
}

// Lines reads the ndjson input file.
func (c *Ctx) Lines(fn func(i int, line []byte)) {
	f, err := os.Open(c.In)
	check(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for i := 0; sc.Scan(); i++ {
		if i < c.From || i%c.Of != c.Shard {
			continue
		}
		c.case_ = i
		fn(i, sc.Bytes())
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", err)
		os.Exit(97)
	}
}

// must is for calls of the library that have to succeed.
func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("unexpected error: %v", err))
	}
}

// guarded runs fn and reports a panic as its message.
func guarded(fn func()) (outcome string) {
	defer func() {
		if e := recover(); e != nil {
			outcome = fmt.Sprintf("panic: %v", e)
			if len(outcome) > 200 {
				outcome = outcome[:200]
			}
		}
	}()
	fn()
	return "ok"
}

var commands = map[string]func(c *Ctx){}

func main() {
	c := &Ctx{}
	fs := flag.NewFlagSet("drv", flag.ExitOnError)
	out := fs.String("out", "", "trace file (appended to)")
	fs.Int64Var(&c.Seed, "seed", 1, "")
	fs.StringVar(&c.Tier, "tier", "quick", "")
	fs.IntVar(&c.From, "from", 0, "first case")
	fs.IntVar(&c.N, "n", 100, "number of cases")
	fs.IntVar(&c.Shard, "shard", 0, "")
	fs.IntVar(&c.Of, "of", 1, "")
	fs.StringVar(&c.In, "in", "", "")
	fs.StringVar(&c.Dir, "dir", "", "scratch directory")
	if len(os.Args) < 2 || commands[os.Args[1]] == nil {
		var names []string
		for n := range commands {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Fprintln(os.Stderr, "usage: drv COMMAND [flags]", names)
		os.Exit(97)
	}
	check(fs.Parse(os.Args[2:]))
	f, err := os.OpenFile(*out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	check(err)
	c.out = f
	c.curf, err = os.OpenFile(*out+".cur", os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	check(err)
	commands[os.Args[1]](c)
	check(f.Close())
	_, err = c.curf.WriteAt([]byte("done\n"), 0)
	check(err)
}
