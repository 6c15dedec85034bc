package vh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"testing/synctest"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
)

// SharedScans.tla: several scans with one comparer and one index, step by step as the specification orders them

func init() {
	suites["sharedscans"] = &suite{run: runShared, bubble: true}
	suites["sharedstress"] = &suite{run: runSharedStress}
}

type gate chan struct{}

// gated stops before every read and every lookup until it is that scan's turn
type gated struct {
	g   gate
	r   io.Reader
	idx *index.ChecksumIndex
}

func (x *gated) Read(p []byte) (int, error) { <-x.g; return x.r.Read(p) }
func (x *gated) FindWeakChecksum2(b []byte) interface{} {
	<-x.g
	return x.idx.FindWeakChecksum2(b)
}
func (x *gated) FindStrongChecksum2(b []byte, w interface{}) []chunks.ChunkChecksum {
	<-x.g
	return x.idx.FindStrongChecksum2(b, w)
}

func runShared(c *Ctx, raw json.RawMessage) {
	var cs struct {
		Bs    int            `json:"bs"`
		Ref   []int          `json:"ref"`
		Locs  [][]int        `json:"locs"`
		Hist  []int          `json:"hist"`
		Cnt   [3]int64       `json:"cnt"`
		Outs  [][]scanReport `json:"outs"`
		Short []bool         `json:"short"`
	}
	mustJSON(raw, &cs)
	c.Expect("C23")
	idx := buildIndex(cs.Bs, toBytes(cs.Ref))
	cmp := &comparer.Comparer{}
	type one struct {
		g     gate
		out   []scanReport
		err   error
		ended bool
	}
	scans := make([]*one, len(cs.Locs))
	var mu sync.Mutex
	for s := range scans {
		x := &one{g: make(gate)}
		scans[s] = x
		// everything is delivered at once, the end with the last piece that falls short
		in := &gated{x.g, newFrag(toBytes(cs.Locs[s]), 2, io.EOF), idx}
		ch := cmp.StartFindMatchingBlocks(in, 0, filechecksum.NewFileChecksumGenerator(uint(cs.Bs)), in)
		go func() {
			for r := range ch {
				mu.Lock()
				if r.Err != nil {
					x.err = r.Err
				} else if n, o := len(x.out), int(r.ComparisonOffset); n > 0 && x.out[n-1].O == o {
					x.out[n-1].B = append(x.out[n-1].B, int(r.BlockIdx))
				} else {
					x.out = append(x.out, scanReport{o, []int{int(r.BlockIdx)}})
				}
				mu.Unlock()
			}
			mu.Lock()
			x.ended = true
			mu.Unlock()
		}()
	}
	synctest.Wait()
	turn := func(s int) bool {
		select {
		case scans[s].g <- struct{}{}:
			c.Step()
			synctest.Wait()
			return true
		default:
			return false
		}
	}
	for _, s := range cs.Hist {
		turn(s - 1)
	}
	for n, moved := 0, true; moved; n++ {
		moved = false
		for s := range scans {
			moved = turn(s) || moved
		}
		if n > 100000 {
			c.Diverge("C05 C23", "scans do not end: %s", raw)
			return
		}
	}
	mu.Lock()
	defer mu.Unlock()
	for s, x := range scans {
		if !x.ended {
			c.Diverge("C05 C23", "scan %d of %s does not end", s+1, raw)
			return
		}
		if (x.err != nil) != cs.Short[s] {
			c.Diverge("", "a scan ends with error %v", x.err)
			continue
		}
		if normal(x.out) != normal(cs.Outs[s]) {
			// is it wrong alone, too? then it is not for this property to say
			alone, _, _, _, _ := scan(cs.Bs, idx, newFrag(toBytes(cs.Locs[s]), 2, io.EOF), 0, 100000)
			if normal(alone) == normal(x.out) {
				c.Diverge("C04", "scan of %v for %v: %s, specification: %s", cs.Locs[s], cs.Ref, normal(x.out), normal(cs.Outs[s]))
			} else {
				c.Diverge("C23", "scan %d of %v reports %s beside others, alone %s", s+1, cs.Locs, normal(x.out), normal(alone))
			}
			return
		}
	}
	if got := [3]int64{cmp.Comparisons, cmp.WeakHashHits, cmp.StrongHashHits}; got != cs.Cnt {
		sum := [3]int64{}
		for _, l := range cs.Locs {
			one := &comparer.Comparer{}
			for range one.StartFindMatchingBlocks(newFrag(toBytes(l), 2, io.EOF), 0, filechecksum.NewFileChecksumGenerator(uint(cs.Bs)), idx) {
			}
			sum[0], sum[1], sum[2] = sum[0]+one.Comparisons, sum[1]+one.WeakHashHits, sum[2]+one.StrongHashHits
		}
		if got != sum {
			c.Diverge("C23", "scans of %v: the statistics are %v, the sum of those alone is %v", cs.Locs, got, sum)
		} else {
			c.Diverge("", "the statistics are counted in another way")
		}
	}
}

// the same, truly at the same time: what the deterministic schedules cannot split
func runSharedStress(c *Ctx, raw json.RawMessage) {
	var cs struct {
		Bs, N, Scans int
		Seed         int64
	}
	mustJSON(raw, &cs)
	c.Expect("C23")
	rnd := rand.New(rand.NewSource(cs.Seed))
	ref := make([]byte, cs.N)
	for i := range ref {
		ref[i] = byte(rnd.Intn(3))
		if i >= cs.Bs*2 && i/cs.Bs%7 == 0 {
			ref[i] = ref[i-cs.Bs*2]
		}
	}
	idx := buildIndex(cs.Bs, ref)
	locs := make([][]byte, cs.Scans)
	for s := range locs {
		locs[s] = append([]byte(nil), ref...)
		for k := 0; k < 50+s; k++ {
			locs[s][rnd.Intn(cs.N)] ^= 1
		}
		locs[s] = locs[s][rnd.Intn(cs.Bs):]
	}
	run := func(cmp *comparer.Comparer, s int) (out []comparer.BlockMatchResult) {
		for r := range cmp.StartFindMatchingBlocks(bytes.NewReader(locs[s]), 0, filechecksum.NewFileChecksumGenerator(uint(cs.Bs)), idx) {
			out = append(out, r)
		}
		return
	}
	var sum [3]int64
	alone := make([]string, cs.Scans)
	for s := range locs {
		cmp := &comparer.Comparer{}
		alone[s] = fmt.Sprint(run(cmp, s))
		sum[0], sum[1], sum[2] = sum[0]+cmp.Comparisons, sum[1]+cmp.WeakHashHits, sum[2]+cmp.StrongHashHits
	}
	for round := 0; round < 2; round++ {
		c.Step()
		cmp := &comparer.Comparer{}
		var wg sync.WaitGroup
		bad := make([]bool, cs.Scans)
		for s := range locs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				bad[s] = fmt.Sprint(run(cmp, s)) != alone[s]
			}()
		}
		wg.Wait()
		for s := range bad {
			if bad[s] {
				c.Diverge("C23", "scan %d of %s reports other matches beside others than alone", s, raw)
				return
			}
		}
		if got := [3]int64{cmp.Comparisons, cmp.WeakHashHits, cmp.StrongHashHits}; got != sum {
			c.Diverge("C23", "%s: the statistics are %v, the sum of those alone is %v", raw, got, sum)
			return
		}
	}
}
