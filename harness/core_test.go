// Package vh replays behaviours of the TLA+ specifications in the real code and records
// behaviours of the real code for TLC. It uses the exported API of /repo only.
package vh

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

const repoPkg = "github.com/Redundancy/go-sync"

// Div is a difference between the real code and the specification.
type Div struct {
	Tags []string        `json:"tags"`
	What string          `json:"what"`
	Idx  int             `json:"idx"`
	Case json.RawMessage `json:"case"`
}

type Result struct {
	Suite   string            `json:"suite"`
	Cases   int               `json:"cases"`
	Steps   int               `json:"steps"`
	Skipped int               `json:"skipped"`
	Notes   map[string]int    `json:"notes"`
	Samples []json.RawMessage `json:"samples"`
	Divs    []Div             `json:"divs"`
	Done    bool              `json:"done"`
}

// Ctx is what a suite sees while it runs one case.
type Ctx struct {
	T       *testing.T
	res     *Result
	idx     int
	cs      json.RawMessage
	seen    map[string]int
	journal *os.File
	trace   *bufio.Writer
	Scratch string
	tags    string
	diffs   int
}

// Diverge records a difference; tags name the properties it violates (none: not a violation).
func (c *Ctx) Diverge(tags string, format string, args ...interface{}) {
	what := fmt.Sprintf(format, args...)
	if tags == "" {
		c.Note("unconstrained difference: " + strings.SplitN(what, ":", 2)[0])
		return
	}
	c.seen[tags]++
	if c.seen[tags] > 20 {
		return
	}
	c.res.Divs = append(c.res.Divs, Div{Tags: strings.Fields(tags), What: what, Idx: c.idx, Case: c.cs})
}

func (c *Ctx) Step()         { c.res.Steps++ }
func (c *Ctx) Note(s string) { c.res.Notes[s]++ }

// TraceDiff is Trace for a record that differs from the model; a few hundred are enough.
func (c *Ctx) TraceDiff(v interface{}) {
	if c.diffs++; c.diffs <= 300 {
		c.Trace(v)
	}
}

// Trace writes one line for TLC.
func (c *Ctx) Trace(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	c.trace.Write(b)
	c.trace.WriteByte('\n')
}

// Expect says which properties a crash or a hang from now on violates.
func (c *Ctx) Expect(tags string) {
	if tags == c.tags {
		return
	}
	c.tags = tags
	c.writeJournal()
}

// the number of the first case: not 0 where one case is run again
var first = envInt("VH_FIRST", 0)

func (c *Ctx) writeJournal() {
	b := bytes.Repeat([]byte{' '}, 64)
	copy(b, fmt.Sprintf("%d|%s|", c.idx-first, c.tags))
	b[63] = '\n'
	c.journal.WriteAt(b, 0)
	atomic.AddInt64(&progress, 1)
}

var progress int64

type suite struct {
	load func(path string, emit func(json.RawMessage))
	run  func(c *Ctx, cs json.RawMessage)
	// synctest: run in a bubble
	bubble bool
}

var suites = map[string]*suite{}

func loadLines(path string, emit func(json.RawMessage)) {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			emit(append(json.RawMessage(nil), sc.Bytes()...))
		}
	}
	if sc.Err() != nil {
		panic(sc.Err())
	}
}

func envInt(k string, d int) int {
	if v := os.Getenv(k); v != "" {
		n, err := strconv.Atoi(v)
		if err != nil {
			panic(err)
		}
		return n
	}
	return d
}

var seed = int64(envInt("VH_SEED", 1))

func TestVH(t *testing.T) {
	name := os.Getenv("VH_SUITE")
	if name == "" {
		t.Skip("driven by check.py")
	}
	s := suites[name]
	if s == nil {
		t.Fatalf("no suite %q", name)
	}
	res := &Result{Suite: name, Notes: map[string]int{}}
	j, err := os.OpenFile(os.Getenv("VH_JOURNAL"), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	skip := map[int]bool{}
	for _, f := range strings.Split(os.Getenv("VH_SKIP"), ",") {
		if f != "" {
			n, _ := strconv.Atoi(f)
			skip[n] = true
		}
	}
	only := envInt("VH_ONLY", -1)
	shard, shards := envInt("VH_SHARD", 0), envInt("VH_SHARDS", 1)
	c := &Ctx{T: t, res: res, journal: j, seen: map[string]int{}, Scratch: os.Getenv("VH_SCRATCH")}
	var tf *os.File
	if p := os.Getenv("VH_TRACE"); p != "" {
		tf, err = os.Create(p)
		if err != nil {
			t.Fatal(err)
		}
		c.trace = bufio.NewWriter(tf)
	}

	write := func() {
		b, err := json.Marshal(res)
		if err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(os.Getenv("VH_OUT"), b, 0o644); err != nil {
			t.Fatal(err)
		}
	}

	// watchdog: the case does not end. Lives outside any bubble, so it sees real time.
	limit := time.Duration(envInt("VH_HANG_S", 20)) * time.Second
	go func() {
		last, since := atomic.LoadInt64(&progress), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			if p := atomic.LoadInt64(&progress); p != last {
				last, since = p, time.Now()
			} else if time.Since(since) > limit {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "VH-HANG\n%s\n", buf)
				os.Exit(97)
			}
		}
	}()

	i := -1
	load := s.load
	if load == nil {
		load = loadLines
	}
	if n := envInt("VH_PAR", 0); n > 0 {
		c.parallel(s, n, func(emit func(int, json.RawMessage)) {
			load(os.Getenv("VH_IN"), func(cs json.RawMessage) {
				if i++; i%shards == shard {
					emit(i, cs)
				}
			})
		})
		if tf != nil {
			c.trace.Flush()
			tf.Close()
		}
		res.Done = true
		write()
		return
	}
	load(os.Getenv("VH_IN"), func(cs json.RawMessage) {
		i++
		if i%shards != shard || (only >= 0 && i != only) {
			return
		}
		if p := os.Getenv("VH_DUMP"); p != "" {
			if err := os.WriteFile(p, cs, 0o644); err != nil {
				t.Fatal(err)
			}
			return
		}
		if skip[i] {
			res.Skipped++
			return
		}
		if len(res.Divs) > 400 || c.diffs > 300 {
			res.Notes["stopped early: many divergences"] = 1
			return
		}
		c.idx, c.cs, c.tags = i+first, cs, ""
		c.writeJournal()
		res.Cases++
		if len(res.Samples) < 3 && (res.Cases == 1 || res.Cases == 40 || res.Cases == 400) {
			res.Samples = append(res.Samples, cs)
		}
		c.runOne(s)
	})
	if tf != nil {
		c.trace.Flush()
		tf.Close()
	}
	res.Done = true
	write()
}

// parallel runs cases beside each other in one process: nothing but the case may influence its outcome
func (c *Ctx) parallel(s *suite, workers int, cases func(func(int, json.RawMessage))) {
	type job struct {
		idx int
		cs  json.RawMessage
	}
	var all []job
	cases(func(i int, cs json.RawMessage) { all = append(all, job{i, cs}) })
	var next int64 = -1
	ws := make([]*Ctx, workers)
	bufs := make([]bytes.Buffer, workers)
	c.T.Run("parallel", func(t *testing.T) {
		for k := range ws {
			t.Run(strconv.Itoa(k), func(t *testing.T) {
				w := &Ctx{T: t, res: &Result{Notes: map[string]int{}}, journal: c.journal, seen: map[string]int{}, trace: bufio.NewWriter(&bufs[k]),
					Scratch: filepath.Join(c.Scratch, "w"+strconv.Itoa(k))}
				ws[k] = w
				if err := os.MkdirAll(w.Scratch, 0o755); err != nil {
					t.Fatal(err)
				}
				t.Parallel()
				for {
					n := int(atomic.AddInt64(&next, 1))
					if n >= len(all) || len(w.res.Divs) > 50 || w.diffs > 100 {
						return
					}
					w.idx, w.cs, w.tags = all[n].idx, all[n].cs, ""
					w.writeJournal()
					w.res.Cases++
					w.runOne(s)
				}
			})
		}
	})
	for k, w := range ws {
		w.trace.Flush()
		c.trace.Write(bufs[k].Bytes())
		c.res.Cases += w.res.Cases
		c.res.Steps += w.res.Steps
		for i, d := range w.res.Divs {
			w.res.Divs[i].What = "with others beside it: " + d.What
		}
		c.res.Divs = append(c.res.Divs, w.res.Divs...)
	}
}

func (c *Ctx) runOne(s *suite) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			msg := fmt.Sprint(p)
			if strings.Contains(msg, "deadlock") && s.bubble {
				// goroutines of the code under test never ended
				c.Diverge(c.tags, "goroutines are left blocked for ever: %v", msg)
				return
			}
			if fromRepo(st) {
				c.Diverge(c.tags, "crash: %v", msg)
				return
			}
			fmt.Fprintf(os.Stderr, "harness panic in case %d: %v\n%s\n", c.idx, p, st)
			os.Exit(98)
		}
	}()
	if s.bubble {
		synctest.Test(c.T, func(*testing.T) {
			// a panic here, in the bubble's first goroutine, must be caught here
			defer func() {
				if p := recover(); p != nil {
					st := string(debug.Stack())
					if fromRepo(st) {
						c.Diverge(c.tags, "crash: %v", p)
						return
					}
					fmt.Fprintf(os.Stderr, "harness panic in case %d: %v\n%s\n", c.idx, p, st)
					os.Exit(98)
				}
			}()
			s.run(c, c.cs)
		})
	} else {
		s.run(c, c.cs)
	}
}

// fromRepo: the panic was raised below a frame of the code under test.
func fromRepo(stack string) bool {
	// frames between the panic and the first frame of this package
	k := strings.Index(stack, "panic(")
	if k < 0 {
		return false
	}
	rest := stack[k:]
	if e := strings.Index(rest, "\nvh."); e >= 0 {
		rest = rest[:e]
	}
	return strings.Contains(rest, repoPkg)
}
