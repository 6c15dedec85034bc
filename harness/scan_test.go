package vh

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"

	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/indexbuilder"
)

func init() {
	suites["scan"] = &suite{run: runScan, bubble: true}
	suites["scanfail"] = &suite{run: runScanFail, bubble: true}
}

// fragReader delivers data in pieces. mode:
//
//	0 everything at once, 1 one byte at a time, 2 at once together with the final error,
//	3 one byte at a time, the last with the error, 4 random pieces with empty reads in between
type fragReader struct {
	data []byte
	pos  int
	mode int
	err  error
	rnd  *rand.Rand
	idle bool
	rest []byte // what follows after the error, if that happens only once
	once bool
}

func (r *fragReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	left := len(r.data) - r.pos
	if left == 0 {
		e := r.err
		if r.once {
			r.data, r.pos, r.err, r.once = r.rest, 0, io.EOF, false
		}
		return 0, e
	}
	n := len(p)
	switch r.mode {
	case 1, 3:
		n = 1
	case 4:
		if !r.idle && r.rnd.Intn(4) == 0 {
			r.idle = true
			return 0, nil
		}
		r.idle = false
		n = 1 + r.rnd.Intn(n)
	}
	if n > left {
		n = left
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if (r.mode == 2 || r.mode == 3) && r.pos == len(r.data) {
		return n, r.err
	}
	return n, nil
}

func newFrag(data []byte, mode int, err error) io.Reader {
	return &fragReader{data: data, mode: mode, err: err, rnd: rand.New(rand.NewSource(seed*7919 + int64(len(data))*31 + int64(mode)))}
}

// fails once after p bytes and goes on if it is read again
func newFragOnce(data []byte, p, mode int, err error) io.Reader {
	if mode == 2 || mode == 3 { // an error beside data that completes a read may go unnoticed
		mode -= 2
	}
	r := newFrag(data[:p], mode, err).(*fragReader)
	r.rest, r.once = data[p:], true
	return r
}

type scanReport struct {
	O int   `json:"o"`
	B []int `json:"b"`
}

type scanCase struct {
	Bs    int          `json:"bs"`
	Ref   []int        `json:"ref"`
	Loc   []int        `json:"loc"`
	Out   []scanReport `json:"out"`
	Short bool         `json:"short"`
}

func buildIndex(bs int, ref []byte) *index.ChecksumIndex {
	_, idx, _, err := indexbuilder.BuildChecksumIndex(filechecksum.NewFileChecksumGenerator(uint(bs)), bytes.NewReader(ref))
	if err != nil {
		panic(err)
	}
	return idx
}

// scan runs a real scan. ended is false when it reports more than it possibly can.
func scan(bs int, idx *index.ChecksumIndex, loc io.Reader, base int64, limit int) (out []scanReport, err error, errAt int, ended bool, n int) {
	errAt = -1
	ch := (&comparer.Comparer{}).StartFindMatchingBlocks(loc, base, filechecksum.NewFileChecksumGenerator(uint(bs)), idx)
	for {
		r, ok := <-ch
		if !ok {
			return out, err, errAt, true, n
		}
		if n++; n > limit {
			return out, err, errAt, false, n
		}
		if r.Err != nil {
			if err == nil {
				err, errAt = r.Err, n
			}
			continue
		}
		o := int(r.ComparisonOffset - base)
		if len(out) > 0 && out[len(out)-1].O == o {
			out[len(out)-1].B = append(out[len(out)-1].B, int(r.BlockIdx))
		} else {
			out = append(out, scanReport{o, []int{int(r.BlockIdx)}})
		}
	}
}

func normal(rep []scanReport) string {
	s := append([]scanReport(nil), rep...)
	for i := range s {
		s[i].B = append([]int(nil), s[i].B...)
		sort.Ints(s[i].B)
	}
	return fmt.Sprint(s)
}

type scanRec struct {
	Idx     int          `json:"idx"`
	Var     string       `json:"var"`
	Bs      int          `json:"bs"`
	Ref     []int        `json:"ref"`
	Loc     []int        `json:"loc"`
	Out     []scanReport `json:"out"`
	Failing bool         `json:"failing"`
}

func nonNil(r []scanReport) []scanReport {
	if r == nil {
		return []scanReport{}
	}
	return r
}

// Scan.tla against comparer.StartFindMatchingBlocks; what differs from the model is judged by TLC
func runScan(c *Ctx, raw json.RawMessage) {
	var cs scanCase
	mustJSON(raw, &cs)
	ref, loc := toBytes(cs.Ref), toBytes(cs.Loc)
	c.Expect("C04 C05")
	idx := buildIndex(cs.Bs, ref)
	limit := (len(loc)+2)*(len(ref)/cs.Bs+2) + 10
	want := normal(cs.Out)
	switch {
	case cs.Bs == 1 && c.idx%100 == 7:
		runScanScaled(c, &cs, 6, 70000/(len(ref)+1), 0)
	case cs.Bs == 1 && c.idx%10 == 3:
		runScanScaled(c, &cs, 6, 300, 4)
	case cs.Bs > 1 && c.idx%200 == 7: // the order of the files of cases is TLC's
		runScanScaled(c, &cs, 70000/cs.Bs+1, 1, 2*(c.idx%3))
	case cs.Bs > 1 && c.idx%10 == 3:
		runScanScaled(c, &cs, 300/cs.Bs+1, 1, c.idx/10%5)
	}
	if full := len(ref) / cs.Bs; full > 0 {
		switch {
		case c.idx%150 == 9:
			runScanRepeated(c, &cs, 70000/full+1)
		case c.idx%20 == 6:
			runScanRepeated(c, &cs, 1300/full+1)
		}
	}
	for mode := 0; mode < 5; mode++ {
		base := int64(0)
		if mode == 1 {
			base = 1 << 33
		}
		c.Step()
		out, err, _, ended, n := scan(cs.Bs, idx, newFrag(loc, mode, io.EOF), base, limit)
		v := fmt.Sprintf("reader %d", mode)
		if !ended {
			c.Diverge("C05", "%s: %d results for %d bytes and %d blocks, the scan does not end", v, n, len(loc), len(ref)/cs.Bs+1)
			return
		}
		if err != nil && len(loc) >= cs.Bs {
			c.Diverge("C04", "%s: error without a read failure: %v", v, err)
			return
		}
		if got := normal(out); got != want || (c.idx+mode)%97 == 0 {
			rec := scanRec{c.idx, v, cs.Bs, cs.Ref, cs.Loc, nonNil(out), false}
			if got != want {
				c.Note("differs from the model, judged by TLC")
				c.TraceDiff(rec)
			} else {
				c.Note("equals the model, judged by TLC as well")
				c.Trace(rec)
			}
		}
	}
}

// Every letter of the model stands for u random bytes (a block has as many letters as in the model), or, where the
// model's blocks have one letter, for r blocks of u bytes. Nothing but letters is found in such a file, so the
// reports are the model's.
func runScanScaled(c *Ctx, cs *scanCase, u, r, mode int) {
	c.Step()
	bs := cs.Bs * u
	letters := map[int][]byte{}
	write := func(in []int) []byte {
		out := make([]byte, 0, len(in)*u*r)
		for _, a := range in {
			if letters[a] == nil {
				letters[a] = make([]byte, u*r)
				rand.New(rand.NewSource(seed*31 + int64(a))).Read(letters[a])
			}
			out = append(out, letters[a]...)
		}
		return out
	}
	ref, loc := write(cs.Ref), write(cs.Loc)
	v := fmt.Sprintf("%d bytes for each letter, %d blocks for each, reader %d", u*r, r, mode)
	idx := buildIndex(bs, ref)
	base := int64(1<<32 - 1000)
	out, err, _, ended, n := scan(bs, idx, newFrag(loc, mode, io.EOF), base, (len(cs.Loc)*r+2)*(len(ref)/bs+2)+10)
	if !ended {
		c.Diverge("C05", "%s: %d results for %d bytes and %d blocks, the scan does not end", v, n, len(loc), len(ref)/bs+1)
		return
	}
	if err != nil && len(loc) >= bs {
		c.Diverge("C04", "%s: error without a read failure: %v", v, err)
		return
	}
	parts := make([][]scanReport, r)
	for _, x := range out {
		part, letter := 0, x.O/u
		if r > 1 {
			part, letter = x.O/u%r, x.O/u/r
		}
		y := scanReport{O: letter}
		for _, b := range x.B {
			if x.O%u != 0 || b%r != part {
				c.Diverge("C05", "%s: block %d of %v is reported at %d in %v, which does not have it there", v, b, cs.Ref, x.O, cs.Loc)
				return
			}
			y.B = append(y.B, b/r)
		}
		parts[part] = append(parts[part], y)
	}
	want := normal(cs.Out)
	for k := range parts {
		if normal(parts[k]) != want {
			c.Note("differs from the model, judged by TLC")
			c.TraceDiff(scanRec{c.idx, fmt.Sprintf("%s, block %d", v, k), cs.Bs, cs.Ref, cs.Loc, nonNil(parts[k]), false})
			return
		}
	}
}

// The reference's full blocks follow each other k times: every one of them is found wherever the model finds it once.
func runScanRepeated(c *Ctx, cs *scanCase, k int) {
	c.Step()
	full := len(cs.Ref) / cs.Bs
	one, loc := toBytes(cs.Ref), toBytes(cs.Loc)
	ref := append(bytes.Repeat(one[:full*cs.Bs], k), one[full*cs.Bs:]...)
	v := fmt.Sprintf("every block %d times", k)
	out, err, _, ended, n := scan(cs.Bs, buildIndex(cs.Bs, ref), newFrag(loc, 0, io.EOF), 0, (len(loc)+2)*(len(ref)/cs.Bs+2)+10)
	if !ended {
		c.Diverge("C05", "%s: %d results for %d bytes and %d blocks, the scan does not end", v, n, len(loc), len(ref)/cs.Bs+1)
		return
	}
	if err != nil && len(loc) >= cs.Bs {
		c.Diverge("C04", "%s: error without a read failure: %v", v, err)
		return
	}
	folded := []scanReport{}
	for _, x := range out {
		times, y := map[int]int{}, scanReport{O: x.O}
		seen := map[int]bool{}
		for _, b := range x.B {
			if seen[b] || b > full*k {
				c.Diverge("C05", "%s: block %d of %v is reported twice or does not exist", v, b, cs.Ref)
				return
			}
			seen[b] = true
			if b == full*k {
				y.B = append(y.B, full)
			} else if times[b%full]++; times[b%full] == 1 {
				y.B = append(y.B, b%full)
			}
		}
		for b, n := range times {
			if n != k {
				c.Diverge("C04", "%s: at %d of %v, %d of %d blocks with the content of block %d of %v are reported", v, x.O, cs.Loc, n, k, b, cs.Ref)
				return
			}
		}
		folded = append(folded, y)
	}
	if normal(folded) != normal(cs.Out) {
		c.Note("differs from the model, judged by TLC")
		c.TraceDiff(scanRec{c.idx, v, cs.Bs, cs.Ref, cs.Loc, nonNil(folded), false})
	}
}

var errRead, errOnce = errors.New("the disk is on fire"), errors.New("the disk is on fire for a moment")

// read failures at every position
func runScanFail(c *Ctx, raw json.RawMessage) {
	var cs scanCase
	mustJSON(raw, &cs)
	ref, loc := toBytes(cs.Ref), toBytes(cs.Loc)
	c.Expect("C05")
	idx := buildIndex(cs.Bs, ref)
	limit := (len(loc)+2)*(len(ref)/cs.Bs+2) + 10
	for p := 0; p <= len(loc); p++ {
		for kind, e := range []error{errRead, io.ErrUnexpectedEOF, io.ErrNoProgress, errOnce} {
			for mode := 0; mode < 5; mode++ {
				if (kind == 2 && mode != 0) || (kind == 3 && mode != 1 && mode != 2) {
					continue
				}
				c.Step()
				v := fmt.Sprintf("%v after %d bytes, reader %d", e, p, mode)
				in := newFrag(loc[:p], mode, e)
				if e == errOnce {
					in = newFragOnce(loc, p, mode, e)
				}
				out, err, errAt, ended, n := scan(cs.Bs, idx, in, 0, limit)
				if !ended {
					c.Diverge("C05", "%s: %d results, the scan does not end", v, n)
					return
				}
				if err == nil {
					c.Diverge("C05", "%s: the read failure is not reported", v)
					return
				}
				if errAt != n {
					c.Diverge("C05", "%s: results follow the failure", v)
					return
				}
				if (c.idx+mode)%29 == 0 {
					c.Trace(scanRec{c.idx, v, cs.Bs, cs.Ref, cs.Loc[:p], nonNil(out), true})
				} else {
					// cheap form of the judge's Genuine
					for _, r := range out {
						for _, b := range r.B {
							lo := b * cs.Bs
							hi := lo + cs.Bs
							if hi > len(ref) {
								hi = len(ref)
							}
							if lo >= len(ref) || r.O < 0 || r.O+hi-lo > p || !bytes.Equal(ref[lo:hi], loc[r.O:r.O+hi-lo]) {
								c.TraceDiff(scanRec{c.idx, v, cs.Bs, cs.Ref, cs.Loc[:p], nonNil(out), true})
							}
						}
					}
				}
			}
		}
	}
}
