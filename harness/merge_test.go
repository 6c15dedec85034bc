package vh

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"testing/synctest"

	"github.com/Redundancy/go-sync/comparer"
)

func init() {
	suites["merge"] = &suite{run: runMerge, bubble: true}
	suites["mergestress"] = &suite{run: runMergeStress}
}

type span struct {
	S int `json:"s"`
	E int `json:"e"`
	O int `json:"o"`
}
type gap struct {
	S int `json:"s"`
	E int `json:"e"`
}

type mergeCase struct {
	N    int `json:"n"`
	Bs   int `json:"bs"`
	Hist []struct {
		St  int  `json:"st"`
		B   int  `json:"b"`
		O   int  `json:"o"`
		Err bool `json:"err"`
	} `json:"hist"`
	Spans []span `json:"spans"`
}

type mergeRec struct {
	Idx     int      `json:"idx"`
	Var     string   `json:"var"`
	Bs      int      `json:"bs"`
	Max     int      `json:"max"`
	Rep     [][2]int `json:"rep"`
	Merged  []span   `json:"merged"`
	Missing []gap    `json:"missing"`
}

// How the model's numbers are written: blocks from base on, offsets and block size multiplied, offsets shifted.
type mergeScale struct{ base, times, shift int64 }

var mergeScales = []mergeScale{{0, 1, 0}, {65533, 1, 0}, {1<<31 - 3, 4096, 0}, {1<<32 - 3, 1, 1<<32 - 5}, {0, 1<<31 + 3, 0}, {250, 65536, 1 << 40}, {0, 1, 1<<31 - 9},
	// sizes that are 0 in the narrower integers: offsets that do not adjoin would seem to
	{0, 1 << 16, 0}, {7, 1 << 32, 0}}

func (z mergeScale) match(b, o int) comparer.BlockMatchResult {
	return comparer.BlockMatchResult{BlockIdx: uint(int64(b) + z.base), ComparisonOffset: int64(o)*z.times + z.shift}
}

// what is no number of the model stays no number of the model (TLC has 32 bits)
func small(v int64) int {
	if v < -7 || v > 1<<20 {
		return -7
	}
	return int(v)
}

func (z mergeScale) spans(l comparer.BlockSpanList) []span {
	out := []span{}
	for _, s := range l {
		o := s.ComparisonStartOffset - z.shift
		if o%z.times != 0 {
			o = -1 - z.times // no offset of the model
		}
		out = append(out, span{small(int64(s.StartBlock) - z.base), small(int64(s.EndBlock) - z.base), small(o / z.times)})
	}
	return out
}

// the blocks before base were reported by nobody: the first gap has them all
func (z mergeScale) gaps(l comparer.BlockSpanList) []gap {
	out := []gap{}
	for i, s := range l {
		from, to := int64(s.StartBlock)-z.base, int64(s.EndBlock)-z.base
		if z.base > 0 && i == 0 && s.StartBlock == 0 {
			if from = 0; to == -1 {
				continue
			}
		}
		out = append(out, gap{small(from), small(to)})
	}
	if z.base > 0 && (len(l) == 0 || l[0].StartBlock != 0) {
		out = append(out, gap{-1, -1})
	}
	return out
}

// cheap form of MergeJudge's OK
func mergeOK(r mergeRec) bool {
	rep := map[[2]int]bool{}
	blocks := map[int]bool{}
	for _, x := range r.Rep {
		rep[x] = true
		blocks[x[0]] = true
	}
	last, n := -1, 0
	for _, s := range r.Merged {
		if s.S <= last || s.E < s.S || s.E > r.Max {
			return false
		}
		last = s.E
		for b := s.S; b <= s.E; b++ {
			if !rep[[2]int{b, s.O + (b-s.S)*r.Bs}] {
				return false
			}
			n++
		}
	}
	if n != len(blocks) {
		return false
	}
	last, m := -1, 0
	for _, s := range r.Missing {
		if s.S <= last || s.E < s.S || s.E > r.Max {
			return false
		}
		last = s.E
		for b := s.S; b <= s.E; b++ {
			if blocks[b] {
				return false
			}
			m++
		}
	}
	return n+m == r.Max+1
}

func (c *Ctx) mergeVerdict(z mergeScale, v string, bs, n int, rep [][2]int, merged comparer.BlockSpanList) {
	top, got := 0, z.spans(merged)
	for _, s := range got {
		if s.E > top {
			top = s.E
		}
	}
	for _, max := range []int{n - 1, n + 5, top} {
		r := mergeRec{c.idx, fmt.Sprint(v, " ", z), bs, max, rep, got, z.gaps(merged.GetMissingBlocks(uint(int64(max) + z.base)))}
		if r.Rep == nil {
			r.Rep = [][2]int{}
		}
		if !mergeOK(r) {
			c.Note("not as the model says, judged by TLC")
			c.TraceDiff(r)
		} else if (c.idx+max)%211 == 0 {
			c.Trace(r)
		}
	}
}

func runMerge(c *Ctx, raw json.RawMessage) {
	var cs mergeCase
	mustJSON(raw, &cs)
	c.Expect("C06")
	streams, z := 0, mergeScale{}
	var rep [][2]int
	for _, h := range cs.Hist {
		if h.St+1 > streams {
			streams = h.St + 1
		}
		if !h.Err {
			rep = append(rep, [2]int{h.B, h.O})
		}
		z.base += int64(h.B + 2*h.O + 3*h.St + 1)
	}
	z = mergeScales[(int(z.base)+len(cs.Hist))%len(mergeScales)]
	send := func(ch chan comparer.BlockMatchResult, k int) {
		h := cs.Hist[k]
		if h.Err {
			ch <- comparer.BlockMatchResult{Err: errors.New("stream failed")}
		} else {
			ch <- z.match(h.B, h.O)
		}
	}
	if cs.N > 0 {
		mergeFar(c, &cs, streams, rep)
	}
	for mode := 0; mode < 3; mode++ {
		c.Step()
		m := &comparer.MatchMerger{}
		chs := make([]chan comparer.BlockMatchResult, streams)
		for i := range chs {
			chs[i] = make(chan comparer.BlockMatchResult)
			m.StartMergeResultStream(chs[i], int64(cs.Bs)*z.times)
		}
		if mode == 0 || mode == 1 {
			var early chan comparer.BlockSpanList
			if mode == 1 { // collected early: waits for the streams
				early = make(chan comparer.BlockSpanList, 1)
				go func() { early <- m.GetMergedBlocks() }()
			}
			bad, failed := false, map[int]bool{}
			for k, h := range cs.Hist {
				ok := make(chan bool, 1)
				go func() { send(chs[h.St], k); ok <- true }()
				synctest.Wait()
				select {
				case <-ok:
				default:
					c.Diverge("C06", "mode %d: the match %+v is not taken from its stream", mode, h)
					return
				}
				if h.Err {
					failed[h.St] = true
				}
				if early != nil && len(early) > 0 && !bad && len(failed) < streams {
					c.Diverge("C06", "merged blocks are returned while a stream has not ended")
					bad = true
				}
			}
			for _, ch := range chs {
				close(ch)
			}
			var got comparer.BlockSpanList
			if early != nil {
				got = <-early
			} else {
				got = m.GetMergedBlocks()
			}
			c.mergeVerdict(z, fmt.Sprint("mode ", mode), cs.Bs, cs.N, rep, got)
			if mode == 0 && fmt.Sprint(z.spans(got)) != fmt.Sprint(cs.Spans) && !(len(got) == 0 && len(cs.Spans) == 0) {
				c.Note("spans joined differently than in the model")
			}
		} else {
			// every stream by its own goroutine, as fast as it is taken
			for st, ch := range chs {
				go func() {
					for k, h := range cs.Hist {
						if h.St == st {
							send(ch, k)
							if h.Err {
								return
							}
						}
					}
					close(ch)
				}()
			}
			c.mergeVerdict(z, "free running", cs.Bs, cs.N, rep, m.GetMergedBlocks())
		}
	}
}

// The model's blocks are every 2^k-th block, the ones between are reported by nobody: numbers
// that are alike in the narrower integers.
func mergeFar(c *Ctx, cs *mergeCase, streams int, rep [][2]int) {
	k := []uint{8, 15, 16, 23, 24, 31, 32, 40}[c.idx%8]
	c.Step()
	m := &comparer.MatchMerger{}
	chs := make([]chan comparer.BlockMatchResult, streams)
	for i := range chs {
		chs[i] = make(chan comparer.BlockMatchResult)
		m.StartMergeResultStream(chs[i], int64(cs.Bs))
		go func() {
			for _, h := range cs.Hist {
				if h.St == i && h.Err {
					chs[i] <- comparer.BlockMatchResult{Err: errors.New("stream failed")}
					return
				} else if h.St == i {
					chs[i] <- comparer.BlockMatchResult{BlockIdx: uint(h.B) << k, ComparisonOffset: int64(h.O)}
				}
			}
			close(chs[i])
		}()
	}
	got := m.GetMergedBlocks()
	r := mergeRec{Idx: c.idx, Var: fmt.Sprintf("every 2^%d-th block", k), Bs: cs.Bs, Max: cs.N - 1, Rep: rep, Merged: []span{}, Missing: []gap{}}
	if r.Rep == nil {
		r.Rep = [][2]int{}
	}
	one := uint(1) << k
	down := func(b uint) int {
		if b%one != 0 {
			return -7
		}
		return small(int64(b >> k))
	}
	for _, s := range got {
		r.Merged = append(r.Merged, span{down(s.StartBlock), down(s.EndBlock), small(s.ComparisonStartOffset)})
	}
	blocks := map[int]bool{}
	for _, x := range rep {
		blocks[x[0]] = true
	}
	max := uint(cs.N-1) << k
	gaps := got.GetMissingBlocks(max)
	n := uint(len(blocks))
	for _, s := range gaps {
		n += s.EndBlock - s.StartBlock + 1
		if a, b := int64((s.StartBlock+one-1)>>k), int64(s.EndBlock>>k); a <= b {
			r.Missing = append(r.Missing, gap{small(a), small(b)})
		}
	}
	if n != max+1 {
		c.Diverge("C06", "every 2^%d-th block, reported %v: of %d blocks %d are found or missing: found %v, missing %v", k, rep, max+1, n, r.Merged, gaps)
	}
	if !mergeOK(r) {
		c.Note("not as the model says, judged by TLC")
		c.TraceDiff(r)
	} else if c.idx%211 == 0 {
		c.Trace(r)
	}
}

// many streams at once on real threads
func runMergeStress(c *Ctx, raw json.RawMessage) {
	var cs struct {
		Blocks  int   `json:"blocks"`
		Streams int   `json:"streams"`
		Reports int   `json:"reports"`
		Seed    int64 `json:"seed"`
		Rounds  int   `json:"rounds"`
	}
	mustJSON(raw, &cs)
	c.Expect("C06")
	rng := rand.New(rand.NewSource(cs.Seed))
	for round := 0; round < cs.Rounds; round++ {
		z := mergeScales[round%len(mergeScales)]
		c.Step()
		var rep [][2]int
		lists := make([][]comparer.BlockMatchResult, cs.Streams)
		for i := range lists {
			b := rng.Intn(cs.Blocks)
			off := b * 4
			for k := 0; k < cs.Reports; k++ {
				if b++; b >= cs.Blocks || rng.Intn(6) == 0 {
					b = rng.Intn(cs.Blocks)
					off = b*4 + rng.Intn(3)*rng.Intn(3)
				} else {
					off += 4
				}
				rep = append(rep, [2]int{b, off})
				lists[i] = append(lists[i], z.match(b, off))
			}
		}
		m := &comparer.MatchMerger{}
		var ready sync.WaitGroup
		ready.Add(1)
		for _, l := range lists {
			ch := make(chan comparer.BlockMatchResult, 64)
			m.StartMergeResultStream(ch, 4*z.times)
			go func() {
				ready.Wait()
				for _, x := range l {
					ch <- x
				}
				close(ch)
			}()
		}
		ready.Done()
		c.mergeVerdict(z, "stress", 4, cs.Blocks, rep, m.GetMergedBlocks())
	}
}
