package vh

import (
	"bytes"
	"crypto/md5"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"slices"
	"sync"
	"time"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/indexbuilder"
	"github.com/Redundancy/go-sync/patcher"
)

func init() {
	suites["system"] = &suite{run: runSystem, bubble: true}
}

type systemCase struct {
	Bs      int   `json:"bs"`
	Ref     []int `json:"ref"`
	Loc     []int `json:"loc"`
	M       int   `json:"m"`
	Missing []int `json:"missing"`
}

type systemRec struct {
	Idx  int    `json:"idx"`
	Var  string `json:"var"`
	Bs   int    `json:"bs"`
	Ref  []int  `json:"ref"`
	Loc  []int  `json:"loc"`
	M    int    `json:"m"`
	Reqs []int  `json:"reqs"`
	Same bool   `json:"same"`
}

func summaryOf(bs int, ref []byte) *gosync.BasicSummary {
	_, idx, look, err := indexbuilder.BuildChecksumIndex(filechecksum.NewFileChecksumGenerator(uint(bs)), bytes.NewReader(ref))
	if err != nil {
		panic(err)
	}
	return &gosync.BasicSummary{ChecksumIndex: idx, ChecksumLookup: look, BlockSize: uint(bs),
		BlockCount: uint((len(ref) + bs - 1) / bs), FileSize: int64(len(ref))}
}

// recRequester serves byte ranges of data and records them; request failAt (from 1) fails or is corrupted
type recRequester struct {
	mu      sync.Mutex
	data    []byte
	got     [][2]int64
	failAt  int
	corrupt bool
	sent    int64
}

func (r *recRequester) DoRequest(a, b int64) ([]byte, error) {
	time.Sleep(time.Millisecond)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.got = append(r.got, [2]int64{a, b})
	if len(r.got) == r.failAt && !r.corrupt {
		return nil, errSource
	}
	if a > int64(len(r.data)) {
		a = int64(len(r.data))
	}
	if b > int64(len(r.data)) {
		b = int64(len(r.data))
	}
	d := append([]byte(nil), r.data[a:b]...)
	if len(r.got) == r.failAt && len(d) > 0 {
		d[len(d)/2] ^= 0x55
	}
	r.sent += int64(len(d))
	return d, nil
}
func (r *recRequester) IsFatal(error) bool { return true }

func honest(ref []byte, bs int) func(s *scriptSource, n int, sp patcher.MissingBlockSpan) error {
	return func(s *scriptSource, n int, sp patcher.MissingBlockSpan) error {
		lo, hi := min(int(sp.StartBlock)*bs, len(ref)), min((int(sp.EndBlock)+1)*bs, len(ref))
		s.results <- patcher.BlockReponse{StartBlock: sp.StartBlock, Data: ref[lo:hi]}
		return nil
	}
}

func flatten(spans []patcher.MissingBlockSpan) []int {
	out := []int{}
	for _, r := range spans {
		for b := r.StartBlock; b <= r.EndBlock; b++ {
			out = append(out, int(b))
			if len(out) > 100000 {
				return out
			}
		}
	}
	return out
}

func flattenBytes(got [][2]int64, bs int, size int) (out []int, ok bool) {
	out, ok = []int{}, true
	for _, r := range got {
		if r[0]%int64(bs) != 0 || r[1] <= r[0] || (r[1]%int64(bs) != 0 && r[1] != int64(size)) {
			ok = false
		}
		for b := r[0] / int64(bs); b*int64(bs) < r[1] && len(out) < 100000; b++ {
			out = append(out, int(b))
		}
	}
	return
}

// every abstract byte becomes many bytes; equality of windows is kept for whole abstract bytes only
func expand(s []int, k int) []byte {
	out := make([]byte, 0, len(s)*k)
	for _, v := range s {
		rng := rand.New(rand.NewSource(int64(v) + 12345))
		for i := 0; i < k; i++ {
			out = append(out, byte(rng.Intn(256)))
		}
	}
	return out
}

func runSystem(c *Ctx, raw json.RawMessage) {
	var cs systemCase
	mustJSON(raw, &cs)
	run := func(name string, k int, src func(sum *gosync.BasicSummary, ref []byte) (patcher.BlockSource, func() ([]int, bool))) {
		ref, loc := toBytes(cs.Ref), toBytes(cs.Loc)
		if k > 1 {
			ref, loc = expand(cs.Ref, k), expand(cs.Loc, k)
		}
		c.Expect("C01")
		c.Step()
		gosync.DefaultConcurrency = cs.M
		sum := summaryOf(cs.Bs*k, ref)
		s, reqs := src(sum, ref)
		var out bytes.Buffer
		err := (&gosync.RSync{Input: bytes.NewReader(loc), Source: s, Output: &out, Summary: sum}).Patch()
		got, ok := reqs()
		v := fmt.Sprintf("%s, scale %d", name, k)
		if !ok {
			c.Diverge("C03", "%s: ranges requested or bytes counted are not those of the missing blocks %v", v, cs.Missing)
		}
		rec := systemRec{c.idx, v, cs.Bs, cs.Ref, cs.Loc, cs.M, got, err == nil && bytes.Equal(out.Bytes(), ref)}
		if err != nil {
			rec.Var += fmt.Sprintf(", error %v", err)
		} else if !rec.Same && len(out.Bytes()) < 100 {
			rec.Var += fmt.Sprintf(", output %v", out.Bytes())
		}
		switch {
		case !rec.Same || fmt.Sprint(got) != fmt.Sprint(cs.Missing):
			c.Note("differs from the model, judged by TLC")
			c.TraceDiff(rec)
		case c.idx%151 == 0:
			c.Trace(rec)
		}
	}
	script := func(sum *gosync.BasicSummary, ref []byte) (patcher.BlockSource, func() ([]int, bool)) {
		s := &scriptSource{results: make(chan patcher.BlockReponse, 1), errs: make(chan error, 1), answer: honest(ref, int(sum.BlockSize))}
		return s, func() ([]int, bool) { return flatten(s.reqs), true }
	}
	real := func(conc int, verify bool) func(sum *gosync.BasicSummary, ref []byte) (patcher.BlockSource, func() ([]int, bool)) {
		return func(sum *gosync.BasicSummary, ref []byte) (patcher.BlockSource, func() ([]int, bool)) {
			rq := &recRequester{data: ref}
			var v blocksources.BlockVerifier
			if verify {
				v = &filechecksum.HashVerifier{Hash: md5.New(), BlockSize: sum.BlockSize, BlockChecksumGetter: sum}
			}
			s := blocksources.NewBlockSourceBase(rq, blocksources.MakeFileSizedBlockResolver(uint64(sum.BlockSize), sum.FileSize), v, conc, 1<<20)
			return s, func() ([]int, bool) {
				s.Close()
				flat, ok := flattenBytes(rq.got, int(sum.BlockSize), len(ref))
				return flat, ok && s.ReadBytes() == rq.sent
			}
		}
	}
	run("scripted source", 1, script)
	if c.idx%3 == 0 {
		run("block source, verified", 1, real(1+c.idx%3, true))
	} else if c.idx%3 == 1 {
		run("block source", 1, real(1, false))
	} else {
		run("reading source", 1, func(sum *gosync.BasicSummary, ref []byte) (patcher.BlockSource, func() ([]int, bool)) {
			var res blocksources.BlockSourceOffsetResolver = blocksources.MakeNullFixedSizeResolver(uint64(sum.BlockSize))
			if c.idx%2 == 0 {
				res = blocksources.MakeFileSizedBlockResolver(uint64(sum.BlockSize), sum.FileSize)
			}
			s := blocksources.NewReadSeekerBlockSource(bytes.NewReader(ref), res)
			return s, func() ([]int, bool) {
				s.Close()
				n := int64(0)
				for _, b := range cs.Missing {
					n += int64(min((b+1)*cs.Bs, len(ref)) - b*cs.Bs)
				}
				// the requests are not seen: bytes only
				if s.ReadBytes() != n {
					c.Note("reading source: other bytes downloaded than in the model")
				}
				return cs.Missing, true
			}
		})
	}
	if c.idx%17 == 0 {
		run("scripted source", 1000, script)
	} else if c.idx%17 == 1 {
		run("block source, verified", 1000, real(2, true))
	}
	// with blocks of one letter: many blocks for each of the model's
	r := 1
	switch {
	case cs.Bs == 1 && c.idx%301 == 10:
		r = 70000/(len(cs.Ref)+1) + 1
	case cs.Bs == 1 && c.idx%25 == 5:
		r = 300
	}
	if r > 1 {
		c.Expect("C01")
		c.Step()
		gosync.DefaultConcurrency = cs.M
		ref, loc := expand(cs.Ref, 6*r), expand(cs.Loc, 6*r)
		sum := summaryOf(6, ref)
		v := fmt.Sprintf("scripted source, %d blocks for each", r)
		s, reqs := script(sum, ref)
		if c.idx%2 == 0 {
			v = fmt.Sprintf("block source, verified, %d blocks for each", r)
			s, reqs = real(2, true)(sum, ref)
		}
		var out bytes.Buffer
		err := (&gosync.RSync{Input: bytes.NewReader(loc), Source: s, Output: &out, Summary: sum}).Patch()
		got, ok := reqs()
		var want []int
		for _, b := range cs.Missing {
			for j := 0; j < r; j++ {
				want = append(want, b*r+j)
			}
		}
		if err != nil || !bytes.Equal(out.Bytes(), ref) {
			c.Diverge("C01", "%s: patching %v to %v: error %v, the output is right: %v", v, cs.Loc, cs.Ref, err, bytes.Equal(out.Bytes(), ref))
			return
		}
		if !ok || !slices.Equal(got, want) {
			c.Diverge("C03", "%s: patching %v to %v: %d blocks requested, missing are %v with %d each", v, cs.Loc, cs.Ref, len(got), cs.Missing, r)
			return
		}
	}
	if c.idx%501 == 0 { // more than the megabyte that is buffered
		run("scripted source", 300000, script)
	}
	// the source fails at each of its requests
	if len(cs.Missing) > 0 {
		ref, loc := toBytes(cs.Ref), toBytes(cs.Loc)
		spans := 1
		for i := 1; i < len(cs.Missing); i++ {
			if cs.Missing[i] != cs.Missing[i-1]+1 {
				spans++
			}
		}
		c.Expect("C02")
		for n := 1; n <= spans; n++ {
			for kind := 0; kind < 3; kind++ {
				c.Step()
				sum := summaryOf(cs.Bs, ref)
				rq := &recRequester{data: ref, failAt: n, corrupt: kind == 1}
				var s patcher.BlockSource
				var end func()
				if kind < 2 {
					v := &filechecksum.HashVerifier{Hash: md5.New(), BlockSize: sum.BlockSize, BlockChecksumGetter: sum}
					b := blocksources.NewBlockSourceBase(rq, blocksources.MakeFileSizedBlockResolver(uint64(cs.Bs), sum.FileSize), v, 1+n%2, 1<<20)
					s = b
					end = func() {
						b.Close()
						for range b.EncounteredError() {
						}
					}
				} else {
					h := honest(ref, cs.Bs)
					s = &scriptSource{results: make(chan patcher.BlockReponse, 1), errs: make(chan error, 1),
						answer: func(s *scriptSource, k int, sp patcher.MissingBlockSpan) error {
							if rq.got = append(rq.got, [2]int64{}); k == n {
								s.errs <- errSource
								return nil
							}
							return h(s, k, sp)
						}}
					end = func() {}
				}
				var out bytes.Buffer
				err := (&gosync.RSync{Input: bytes.NewReader(loc), Source: s, Output: &out, Summary: sum}).Patch()
				end()
				if len(rq.got) < n {
					c.Note("fewer requests than in the model")
				} else if err == nil {
					c.Diverge("C02", "failure %d of request %d of %d is not reported", kind, n, spans)
				}
				if !bytes.HasPrefix(ref, out.Bytes()) {
					c.Diverge("C02", "failure %d of request %d: output %v is no prefix", kind, n, out.Bytes())
				}
			}
		}
	}
	runSystemLocal(c, &cs)
}

// a local file that fails where it is told to; -1: nowhere
type faultyInput struct {
	data     []byte
	pos      int64
	scan     int // byte that ReadAt does not get
	read     int // byte that Read does not get
	seek     int // the seek that fails, from 1
	withData bool
	seeks    int
	hit      bool
}

func (f *faultyInput) upTo(p []byte, off int64, bad int) (int, error) {
	if off >= int64(len(f.data)) {
		return 0, io.EOF
	}
	d := f.data[off:]
	if bad >= 0 && bad < len(f.data) {
		d = f.data[min(off, int64(bad)):bad]
		n := copy(p, d)
		if n < len(p) && (n == 0 || f.withData) {
			return n, errRead
		}
		return n, nil
	}
	return copy(p, d), nil
}

func (f *faultyInput) ReadAt(p []byte, off int64) (int, error) {
	n, err := f.upTo(p, off, f.scan)
	if n < len(p) && err == nil {
		if err = io.EOF; f.scan >= 0 && f.scan < len(f.data) {
			err = errRead
		}
	}
	return n, err
}

func (f *faultyInput) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n, err := f.upTo(p, f.pos, f.read)
	f.pos += int64(n)
	if err == errRead {
		f.hit = true
	}
	return n, err
}

func (f *faultyInput) Seek(off int64, whence int) (int64, error) {
	if f.seeks++; f.seeks == f.seek {
		f.hit = true
		return 0, errSeek
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.data))
	}
	f.pos = off
	return off, nil
}

// the local file or the output fails during a whole patch
func runSystemLocal(c *Ctx, cs *systemCase) {
	if c.idx%4 != 1 && len(cs.Ref) < 8 {
		return
	}
	c.Expect("C01 C02")
	gosync.DefaultConcurrency = cs.M
	ref, loc := toBytes(cs.Ref), toBytes(cs.Loc)
	bs := cs.Bs
	if c.idx%3 == 1 { // longer blocks: parts of them can be copied
		ref, loc, bs = expand(cs.Ref, 5), expand(cs.Loc, 5), bs*5
	}
	one := func(what string, in *faultyInput, limit int) bool {
		c.Step()
		sum := summaryOf(bs, ref)
		s := &scriptSource{results: make(chan patcher.BlockReponse, 1), errs: make(chan error, 1), answer: honest(ref, bs)}
		in.data = loc
		out := &faultyWriter{limit: limit}
		err := (&gosync.RSync{Input: in, Source: s, Output: out, Summary: sum}).Patch()
		same := bytes.Equal(out.buf, ref)
		switch {
		case err == nil && !same:
			c.Diverge("C01 C02", "%s: patching %v to %v (blocks of %d, %d matchers) reports success, the output is wrong", what, loc, ref, bs, cs.M)
		case err == nil && (in.hit || limit >= 0):
			c.Diverge("C02", "%s: patching %v to %v (blocks of %d, %d matchers) reports success", what, loc, ref, bs, cs.M)
		case !bytes.HasPrefix(ref, out.buf):
			c.Diverge("C02", "%s: patching %v to %v (blocks of %d, %d matchers): output %v is no prefix", what, loc, ref, bs, cs.M, out.buf)
		case err != nil && !in.hit && limit < 0 && in.scan < 0:
			c.Diverge("C01", "%s, which does not matter: patching %v to %v fails: %v", what, loc, ref, err)
		default:
			return true
		}
		return false
	}
	step := 1 + len(loc)/12
	for p := c.idx % step; p < len(loc); p += step {
		w := (p+c.idx)%2 == 0
		if !one(fmt.Sprintf("byte %d cannot be scanned", p), &faultyInput{scan: p, read: -1, withData: w}, -1) ||
			!one(fmt.Sprintf("byte %d cannot be copied", p), &faultyInput{scan: -1, read: p, withData: w}, -1) ||
			!one(fmt.Sprintf("byte %d cannot be read", p), &faultyInput{scan: p, read: p, withData: w}, -1) {
			return
		}
	}
	for n := 1; n < 5; n++ {
		if !one(fmt.Sprintf("seek %d fails", n), &faultyInput{scan: -1, read: -1, seek: n}, -1) {
			return
		}
	}
	step = 1 + len(ref)/12
	for p := c.idx % step; p < len(ref); p += step {
		if !one(fmt.Sprintf("the output fails at byte %d", p), &faultyInput{scan: -1, read: -1}, p) {
			return
		}
	}
}
