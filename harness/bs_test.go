package vh

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"sort"
	"sync"
	"testing/synctest"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/patcher"
)

// ---------------------------------------------------------------- the graph of BlockSource.tla

type rng [2]int

type bsState struct {
	Pc     string `json:"pc"`
	St     string `json:"st"`
	Q      []rng  `json:"q"`
	W      []rng  `json:"w"`
	Offer  []rng  `json:"offer"`
	Err    string `json:"err"`
	Del    []rng  `json:"del"`
	Failed []rng  `json:"failed"`
	Cl     int    `json:"cl"`
}

type bsLabel struct {
	N string `json:"n"`
	R rng    `json:"r"`
}

// what a stable state shows to the environment
type bsObs struct {
	W      []rng  `json:"w"`
	Offer  []rng  `json:"offer,omitempty"`
	Err    string `json:"err"`
	Run    bool   `json:"run"`
	Done   bool   `json:"done,omitempty"`
	Failed int    `json:"failed,omitempty"`
	Cl     int    `json:"cl,omitempty"`
}

type bsStep struct {
	A bsLabel `json:"a"`
	E bsObs   `json:"e"`
}

type bsCfg struct {
	Conc   int `json:"conc"`
	SplitN int `json:"splitn"`
	Blocks int `json:"blocks"`
}

type bsCase struct {
	Cfg    bsCfg    `json:"cfg"`
	Parity int      `json:"parity"`
	Steps  []bsStep `json:"steps"`
}

func loadBSGraph(path string, emit func(json.RawMessage)) {
	var cfg bsCfg
	if v := os.Getenv("VH_CFG"); v != "" {
		if err := json.Unmarshal([]byte(v), &cfg); err != nil {
			panic(err)
		}
	} else { // a replay file holds cases, not a graph
		loadLines(path, emit)
		return
	}
	type edge struct {
		a bsLabel
		t int
	}
	ids := map[string]int{}
	var states []bsState
	var internal []int // successor by an internal step, or -1
	var out [][]edge
	id := func(raw json.RawMessage) int {
		if n, ok := ids[string(raw)]; ok {
			return n
		}
		var s bsState
		if err := json.Unmarshal(raw, &s); err != nil {
			panic(err)
		}
		n := len(states)
		ids[string(raw)] = n
		states = append(states, s)
		internal = append(internal, -1)
		out = append(out, nil)
		return n
	}
	init := -1
	loadLines(path, func(l json.RawMessage) {
		var e struct {
			F, T json.RawMessage
			A    bsLabel
		}
		if err := json.Unmarshal(l, &e); err != nil {
			panic(err)
		}
		f, t := id(e.F), id(e.T)
		if init < 0 {
			init = f
		}
		if e.A.N == "internal" {
			internal[f] = t
		} else {
			out[f] = append(out[f], edge{e.A, t})
		}
	})
	stable := func(s int) int {
		for internal[s] >= 0 {
			s = internal[s]
		}
		return s
	}
	obs := func(s int) bsObs {
		x := states[s]
		return bsObs{W: x.W, Offer: x.Offer, Err: x.Err, Run: x.St == "running", Done: x.Pc == "done",
			Failed: len(x.Failed), Cl: x.Cl}
	}
	// breadth-first tree over stable states
	type parent struct {
		s int
		a bsLabel
	}
	start := stable(init)
	par := map[int]parent{start: {-1, bsLabel{}}}
	order := []int{start}
	for k := 0; k < len(order); k++ {
		for _, e := range out[order[k]] {
			t := stable(e.t)
			if _, ok := par[t]; !ok {
				par[t] = parent{order[k], e.a}
				order = append(order, t)
			}
		}
	}
	next := make([]int, len(states)) // first uncovered out edge
	n := 0
	for _, s := range order {
		for next[s] < len(out[s]) {
			var steps []bsStep
			for x := s; x != start; x = par[x].s {
				steps = append(steps, bsStep{par[x].a, obs(x)})
			}
			for a, b := 0, len(steps)-1; a < b; a, b = a+1, b-1 {
				steps[a], steps[b] = steps[b], steps[a]
			}
			for x := s; next[x] < len(out[x]) && len(steps) < 60; {
				e := out[x][next[x]]
				next[x]++
				x = stable(e.t)
				steps = append(steps, bsStep{e.a, obs(x)})
			}
			b, err := json.Marshal(bsCase{cfg, n % 4, steps})
			if err != nil {
				panic(err)
			}
			n++
			emit(b)
		}
	}
}

// ---------------------------------------------------------------- a controllable remote

const bsBlock = 4

func bsContent(blocks int) []byte {
	var b []byte
	for i := 0; i < blocks; i++ {
		b = append(b, byte(i*7+1), byte(i*3+2), 5, byte(i))
	}
	if len(b) > 0 {
		b = b[:len(b)-1] // the last block is short
	}
	return b
}

type bsFetch struct {
	r     rng
	start int64
	end   int64
	reply chan bsReply
}

type bsReply struct {
	data []byte
	err  error
}

// The remote file; the model's block 0 is block base of it (which has nothing readable before).
type bsRemote struct {
	sync.Mutex
	content []byte
	base    int64
	flight  []*bsFetch
	max     int
	started int
}

func (r *bsRemote) DoRequest(start, end int64) ([]byte, error) {
	f := &bsFetch{start: start, end: end, reply: make(chan bsReply)}
	start, end = start-r.base*bsBlock, end-r.base*bsBlock
	if start >= 0 && start%bsBlock == 0 && end > start && (end%bsBlock == 0 || end == int64(len(r.content))) {
		f.r = rng{int(start / bsBlock), int((end - 1) / bsBlock)}
	} else {
		f.r = rng{-1, -1}
	}
	r.Lock()
	r.flight = append(r.flight, f)
	r.started++
	if len(r.flight) > r.max {
		r.max = len(r.flight)
	}
	r.Unlock()
	x := <-f.reply
	return x.data, x.err
}

func (r *bsRemote) IsFatal(error) bool { return true }

func (r *bsRemote) VerifyBlockRange(startBlock uint, data []byte) bool {
	off := (int(startBlock) - int(r.base)) * bsBlock
	return off >= 0 && off+len(data) <= len(r.content) && bytes.Equal(data, r.content[off:off+len(data)])
}

func (r *bsRemote) bytesOf(x rng) []byte {
	lo, hi := x[0]*bsBlock, (x[1]+1)*bsBlock
	if hi > len(r.content) {
		hi = len(r.content)
	}
	return append([]byte(nil), r.content[lo:hi]...)
}

func (r *bsRemote) ranges() []rng {
	r.Lock()
	defer r.Unlock()
	var out []rng
	for _, f := range r.flight {
		out = append(out, f.r)
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i][0] < out[j][0] || out[i][0] == out[j][0] && out[i][1] < out[j][1]
	})
	return out
}

// take removes an outstanding fetch for the range
func (r *bsRemote) take(x rng) *bsFetch {
	r.Lock()
	defer r.Unlock()
	for i, f := range r.flight {
		if f.r == x {
			r.flight = append(r.flight[:i:i], r.flight[i+1:]...)
			return f
		}
	}
	return nil
}

func sortedRanges(in []rng) []rng {
	out := append([]rng(nil), in...)
	sort.Slice(out, func(i, j int) bool {
		return out[i][0] < out[j][0] || out[i][0] == out[j][0] && out[i][1] < out[j][1]
	})
	return out
}

func sameRanges(a, b []rng) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var errBSFault = errors.New("the fetch failed")

func newBS(cfg bsCfg, remote *bsRemote) *blocksources.BlockSourceBase {
	return blocksources.NewBlockSourceBase(
		remote,
		&blocksources.FixedSizeBlockResolver{
			BlockSize:             bsBlock,
			FileSize:              remote.base*bsBlock + int64(len(remote.content)),
			MaxDesiredRequestSize: uint64(cfg.SplitN * bsBlock),
		},
		remote,
		cfg.Conc,
		1<<20,
	)
}

// call runs f in its own goroutine; done reports whether it returned, crash what it panicked with.
type call struct {
	mu    sync.Mutex
	done  bool
	err   error
	crash interface{}
}

func (c *call) get() (bool, error, interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.done, c.err, c.crash
}

func goCall(f func() error) *call {
	c := &call{}
	go func() {
		var err error
		defer func() {
			p := recover()
			c.mu.Lock()
			c.done, c.err, c.crash = true, err, p
			c.mu.Unlock()
		}()
		err = f()
	}()
	return c
}

func init() {
	suites["blocksource"] = &suite{load: loadBSGraph, run: runBSCase, bubble: true}
}

func runBSCase(c *Ctx, raw json.RawMessage) {
	var cs bsCase
	if err := json.Unmarshal(raw, &cs); err != nil {
		panic(err)
	}
	remote := &bsRemote{content: bsContent(cs.Cfg.Blocks)}
	h := len(cs.Steps)
	for i, s := range cs.Steps {
		h += (i + 1) * (len(s.A.N) + s.A.R[0] + 3*s.A.R[1])
	}
	// numbers of blocks past the borders of the narrower integers
	remote.base = []int64{0, 0, 253, 1<<16 - 2, 1<<31 - 2, 1<<32 - 2, 1 << 40}[h%7]
	failures, closed, sentBytes, maybeBytes, miscounted := 0, 0, int64(0), int64(0), false
	var delivered, failed, bad []rng

	mode := func() string {
		if failures > 0 {
			return "C09"
		} else if closed > 0 {
			return "C11"
		}
		return "C07"
	}
	c.Expect("C07")
	src := newBS(cs.Cfg, remote)
	synctest.Wait()

	// everything that may not happen whatever the state
	checkDelivered := func(got patcher.BlockReponse) (rng, bool) {
		first := int(got.StartBlock) - int(remote.base)
		r := rng{first, first + (len(got.Data)+bsBlock-1)/bsBlock - 1}
		for i, b := range bad {
			if b == r && !bytes.Equal(got.Data, remote.bytesOf(r)) {
				_ = i
				c.Diverge("C09 C10", "data of range %v that failed verification was delivered", r)
				return r, false
			}
		}
		for _, b := range failed {
			if b == r && got.Data == nil {
				c.Diverge("C09", "a delivery was made for the failed range %v", r)
				return r, false
			}
		}
		if r[0] < 0 || r[1] < r[0] || (r[1]+1)*bsBlock > len(remote.content)+bsBlock-1 || !bytes.Equal(got.Data, remote.bytesOf(r)) {
			if failures > 0 {
				c.Diverge("C09", "after a failure a delivery has start block %d and data %v", got.StartBlock, got.Data)
			} else {
				c.Diverge("C07", "delivered start block %d with data %v, which is not the data of that range", got.StartBlock, got.Data)
			}
			return r, false
		}
		return r, true
	}

	steps := func() {
		for k, s := range cs.Steps {
			c.Step()
			where := fmt.Sprintf("step %d (%s %v)", k+1, s.A.N, s.A.R)
			running := s.E.Run && failures == 0 && closed == 0
			switch s.A.N {
			case "request":
				r := s.A.R
				cl := goCall(func() error {
					return src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: uint(r[0] + int(remote.base)), EndBlock: uint(r[1] + int(remote.base)), BlockSize: bsBlock})
				})
				synctest.Wait()
				ok, err, crash := cl.get()
				if crash != nil {
					c.Diverge(mode(), "%s: RequestBlocks crashed: %v", where, crash)
					return
				}
				if running && (!ok || err != nil) {
					c.Diverge("C07", "%s: RequestBlocks on an open source: returned=%v err=%v", where, ok, err)
					return
				}
				if !ok {
					c.Diverge("", "RequestBlocks blocks while the source is ending")
					return
				}
			case "ok", "fail":
				f := remote.take(s.A.R)
				if f == nil {
					panic("no fetch for " + where)
				}
				var rep bsReply
				if s.A.N == "ok" {
					rep.data = remote.bytesOf(s.A.R)
				} else {
					if failures == 0 {
						c.Expect("C09")
					}
					switch (failures + cs.Parity) % 4 {
					case 0:
						rep.err = errBSFault
						failed = append(failed, s.A.R)
					case 1:
						rep.data = remote.bytesOf(s.A.R)
						rep.data[len(rep.data)-1] ^= 0x55
						bad = append(bad, s.A.R)
					case 2: // an error besides a part of the data
						rep.err = errBSFault
						rep.data = remote.bytesOf(s.A.R)
						rep.data = rep.data[:len(rep.data)/2]
						failed = append(failed, s.A.R)
					case 3: // an error besides all of the data
						rep.err = errBSFault
						rep.data = remote.bytesOf(s.A.R)
						failed = append(failed, s.A.R)
					}
					failures++
				}
				if rep.err == nil {
					sentBytes += int64(len(rep.data))
				} else { // whether data besides an error counts is left open
					maybeBytes += int64(len(rep.data))
				}
				f.reply <- rep
				synctest.Wait()
			case "deliver":
				select {
				case got, ok := <-src.GetResultChannel():
					if !ok {
						if running {
							c.Diverge("C07", "%s: the results are closed, range %v is lost", where, s.A.R)
						} else {
							c.Diverge("", "results closed early while ending")
						}
						return
					}
					r, genuine := checkDelivered(got)
					if !genuine {
						return
					}
					delivered = append(delivered, r)
					if r != s.A.R {
						if running {
							c.Diverge("C07", "%s: range %v was delivered instead", where, r)
						} else {
							c.Diverge("", "another range delivered while ending")
						}
						return
					}
				default:
					if running {
						c.Diverge("C07", "%s: the range has been fetched and nothing lower is in flight, but it is not offered", where)
					} else {
						c.Diverge("", "range withheld while ending")
					}
					return
				}
				synctest.Wait()
			case "deliverErr":
				select {
				case err, ok := <-src.EncounteredError():
					if !ok || err == nil {
						c.Diverge("C09", "%s: the failure is not reported (err=%v, channel open=%v)", where, err, ok)
						return
					}
				default:
					c.Diverge("C09", "%s: a fetch failed but no failure can be received", where)
					return
				}
				synctest.Wait()
			case "close":
				if failures == 0 {
					c.Expect("C11")
				}
				closed++
				cl := goCall(src.Close)
				synctest.Wait()
				if ok, err, crash := cl.get(); crash != nil || !ok || (err != nil && closed == 1 && failures == 0) {
					c.Diverge("C11", "%s: Close: returned=%v err=%v crash=%v", where, ok, err, crash)
					return
				}
			default:
				panic(s.A.N)
			}

			// the state the specification is in now
			running = s.E.Run && failures == 0 && closed == 0
			want, got := sortedRanges(s.E.W), remote.ranges()
			if len(got) > cs.Cfg.Conc {
				c.Diverge("C08", "%s: %d fetches outstanding, the limit is %d", where, len(got), cs.Cfg.Conc)
				return
			}
			if !sameRanges(want, got) {
				switch {
				case running:
					tag := "C08"
					if len(got) == len(want) || containsBogus(got, remote) {
						tag = "C07 C08"
					}
					c.Diverge(tag, "%s: fetches in flight: %v, specification: %v", where, got, want)
				case len(got) > len(want) && failures > 0 && closed > 0:
					c.Diverge("C09 C11", "%s: fetches %v in flight after a failure and Close, specification: %v", where, got, want)
				case len(got) > len(want) && failures > 0:
					c.Diverge("C09", "%s: fetches %v in flight after a failure, specification: %v", where, got, want)
				case len(got) > len(want):
					c.Diverge("C11", "%s: fetches %v in flight after Close, specification: %v", where, got, want)
				default:
					c.Diverge("", "fewer fetches in flight while ending")
				}
				return
			}
			if n := src.ReadBytes(); (n < sentBytes || n > sentBytes+maybeBytes) && !miscounted {
				miscounted = true
				c.Diverge("C03", "%s: ReadBytes is %d, the source was sent %d", where, n, sentBytes)
			}
			if len(s.E.Offer) == 0 {
				select {
				case got, ok := <-src.GetResultChannel():
					if ok {
						if _, genuine := checkDelivered(got); genuine {
							if running {
								c.Diverge("C07", "%s: range starting at %d is handed out, specification: nothing to hand out (in flight %v)", where, got.StartBlock, want)
							} else {
								c.Diverge("", "an extra range delivered while ending")
							}
						}
						return
					}
					if !s.E.Done {
						if running {
							c.Diverge("C07", "%s: the results are closed on an open source", where)
						} else {
							c.Diverge("", "results closed early while ending")
						}
						return
					}
				default:
					if s.E.Done {
						c.Diverge(mode0(mode()), "%s: the source should have ended, its results are still open", where)
						return
					}
				}
			}
			if s.E.Err != "pending" {
				select {
				case err, ok := <-src.EncounteredError():
					if ok {
						c.Diverge("C09", "%s: failure %v reported, specification: %s", where, err, s.E.Err)
						return
					}
					if !s.E.Done {
						c.Diverge(map[bool]string{true: "C07", false: ""}[running], "error channel closed early: %s", where)
						return
					}
				default:
					if s.E.Done {
						c.Diverge(mode0(mode()), "%s: the source should have ended, its errors are still open", where)
						return
					}
				}
			}
		}
	}
	steps()

	// whatever the state, the source can be closed and ends
	if failures == 0 {
		c.Expect("C11")
	} else {
		c.Expect("C09 C11")
	}
	endBS(c, src, remote)
}

// ended sources: after a failure both the failure and the closing rules are broken
func mode0(m string) string {
	if m == "C09" {
		return "C09 C11"
	}
	return "C11"
}

func containsBogus(got []rng, remote *bsRemote) bool {
	for _, r := range got {
		if r[0] < 0 {
			return true
		}
	}
	return false
}

// endBS closes the source at whatever state it is in and checks that it ends.
func endBS(c *Ctx, src *blocksources.BlockSourceBase, remote *bsRemote) {
	for i := 0; i < 2; i++ {
		cl := goCall(src.Close)
		synctest.Wait()
		if ok, _, crash := cl.get(); crash != nil || !ok {
			c.Diverge("C11", "closing at the end: Close: returned=%v crash=%v", ok, crash)
			drainBS(src, remote)
			return
		}
	}
	before := remote.started
	for _, r := range remote.ranges() {
		f := remote.take(r)
		f.reply <- bsReply{data: remote.content[f.start-remote.base*bsBlock : f.end-remote.base*bsBlock]}
		synctest.Wait()
	}
	if remote.started != before {
		c.Diverge("C11", "closing at the end: %d fetches were started after Close", remote.started-before)
		drainBS(src, remote)
		return
	}
	select {
	case <-src.EncounteredError():
	default:
	}
	synctest.Wait()
	open := ""
	select {
	case _, ok := <-src.EncounteredError():
		if ok {
			open = "a second failure is reported"
		}
	default:
		open = "the error channel is still open"
	}
	select {
	case _, ok := <-src.GetResultChannel():
		if ok {
			open = "a result is handed out"
		}
	default:
		open = "the result channel is still open"
	}
	if open != "" {
		c.Diverge("C11", "closed, all fetches ended, failure read, but %s", open)
		drainBS(src, remote)
		return
	}
	cl := goCall(func() error {
		return src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: 0, EndBlock: 0, BlockSize: bsBlock})
	})
	cl2 := goCall(src.Close)
	synctest.Wait()
	if ok, err, crash := cl.get(); crash != nil || !ok || err == nil {
		c.Diverge("C11", "RequestBlocks on an ended source: returned=%v err=%v crash=%v", ok, err, crash)
	}
	if ok, _, crash := cl2.get(); crash != nil || !ok {
		c.Diverge("C11", "Close on an ended source: returned=%v crash=%v", ok, crash)
	}
}

// drainBS does what it can to let the goroutines of a misbehaving source end.
func drainBS(src *blocksources.BlockSourceBase, remote *bsRemote) {
	for i := 0; i < 200; i++ {
		moved := false
		for _, r := range remote.ranges() {
			if f := remote.take(r); f != nil {
				f.reply <- bsReply{err: errBSFault}
				synctest.Wait()
				moved = true
			}
		}
		select {
		case _, ok := <-src.EncounteredError():
			moved = moved || ok
		default:
		}
		select {
		case _, ok := <-src.GetResultChannel():
			moved = moved || ok
		default:
		}
		synctest.Wait()
		if !moved {
			return
		}
	}
}
