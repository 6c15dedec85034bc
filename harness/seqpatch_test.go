package vh

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"slices"
	"strings"
	"time"

	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/patcher/sequential"
)

func init() {
	suites["seqpatch"] = &suite{run: runSeqPatch, bubble: true}
}

type seqCase struct {
	Spans []struct {
		N     int  `json:"n"`
		Found bool `json:"found"`
	} `json:"spans"`
	At   int      `json:"at"`
	Kind string   `json:"kind"`
	Reqs [][2]int `json:"reqs"`
	OK   bool     `json:"ok"`
}

var (
	errSeek   = errors.New("seek refused")
	errWrite  = errors.New("disk full")
	errSource = errors.New("source failed")
)

// a reader with nothing in it (that anyone may ask for) before its base
type shiftedReader struct {
	*bytes.Reader
	base int64
}

func (r *shiftedReader) Seek(off int64, w int) (int64, error) {
	if w == io.SeekStart {
		if off -= r.base; off < 0 {
			off = r.Reader.Size()
		}
	}
	p, err := r.Reader.Seek(off, w)
	return p + r.base, err
}

// a local file that fails at one seek
type faultyLocal struct {
	io.ReadSeeker
	seeks  int
	failAt int // the seek (1-based) at or after which kind applies
	kind   string
	left   int // bytes readable after the fault is armed
	armed  bool
}

func (l *faultyLocal) Seek(off int64, w int) (int64, error) {
	l.seeks++
	if l.seeks == l.failAt {
		switch l.kind {
		case "seek":
			return 0, errSeek
		case "readStart", "readMid", "readData", "short", "shortEnd":
			l.armed = true
		}
	} else {
		l.armed = false
	}
	return l.ReadSeeker.Seek(off, w)
}

func (l *faultyLocal) Read(p []byte) (int, error) {
	if !l.armed {
		return l.ReadSeeker.Read(p)
	}
	e := errRead
	if l.kind == "short" || l.kind == "shortEnd" {
		e = io.EOF
	}
	if l.left <= 0 {
		return 0, e
	}
	if len(p) > l.left {
		p = p[:l.left]
	}
	n, err := l.ReadSeeker.Read(p)
	if l.left -= n; err == nil && l.left == 0 && l.kind == "readData" {
		err = e
	}
	return n, err
}

// hides WriterTo
type onlyReadSeeker struct{ io.ReadSeeker }

type faultyWriter struct {
	buf   []byte
	limit int  // bytes accepted, -1: all
	armed bool // the write that reaches the limit takes everything but fails
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	if w.armed {
		w.buf = append(w.buf, p...)
		if len(w.buf) >= w.limit {
			return len(p), errWrite
		}
		return len(p), nil
	}
	if w.limit >= 0 && len(w.buf)+len(p) > w.limit {
		n := w.limit - len(w.buf)
		w.buf = append(w.buf, p[:n]...)
		return n, errWrite
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

// a block source whose answers are scripted
type scriptSource struct {
	reqs    []patcher.MissingBlockSpan
	results chan patcher.BlockReponse
	errs    chan error
	answer  func(s *scriptSource, n int, span patcher.MissingBlockSpan) error
}

func (s *scriptSource) RequestBlocks(b patcher.MissingBlockSpan) error {
	s.reqs = append(s.reqs, b)
	return s.answer(s, len(s.reqs), b)
}
func (s *scriptSource) GetResultChannel() <-chan patcher.BlockReponse { return s.results }
func (s *scriptSource) EncounteredError() <-chan error                { return s.errs }

func runSeqPatch(c *Ctx, raw json.RawMessage) {
	var cs seqCase
	mustJSON(raw, &cs)
	tags := "C02"
	if cs.At == 0 {
		tags = "C01 C02"
	}
	c.Expect(tags)
	type shape struct{ bs, last, r int } // r: blocks for each one of the model
	shapes := []shape{{1, 1, 1}, {4, 4, 1}, {4, 1, 1}, {5, 3, 1}}
	switch {
	case c.idx%500 == 9 || cs.At == 0 && c.idx%16 == 9:
		shapes = append(shapes, shape{1, 1, 70000})
	case c.idx%50 == 7:
		shapes = append(shapes, shape{70001, 69998, 1})
	case c.idx%8 == 3:
		shapes = append(shapes, shape{3, 2, 300})
	}
	base := []int64{0, 1<<31 - 5, 1<<32 - 5, 1 << 40}[c.idx%4] // where the local content begins
	for _, sh := range shapes {
		total := 0
		for _, s := range cs.Spans {
			total += s.N * sh.r
		}
		if total == 0 {
			return // no blocks at all: see the suite of whole patches
		}
		size := (total-1)*sh.bs + sh.last
		ref := make([]byte, size)
		for i := range ref {
			ref[i] = byte(1 + i*7%250)
		}
		var missing []patcher.MissingBlockSpan
		var found []patcher.FoundBlockSpan
		var local []byte
		// local content in reverse order of the spans, with rubbish between
		type place struct{ lo, hi int }
		var places []place
		b := 0
		faultyFound, bytesBefore, faultLen := 0, 0, 0
		for i, s := range cs.Spans {
			s.N *= sh.r
			lo, hi := b*sh.bs, (b+s.N)*sh.bs
			if hi > size {
				hi = size
			}
			if i+1 == cs.At {
				bytesBefore, faultLen = lo, hi-lo
			}
			if cs.Kind == "hole" && i+1 == cs.At {
				b += s.N
				continue
			}
			if s.Found {
				bsz := sh.bs
				if s.N == 1 {
					bsz = hi - lo
				}
				found = append(found, patcher.FoundBlockSpan{StartBlock: uint(b), EndBlock: uint(b + s.N - 1), BlockSize: int64(bsz)})
				places = append(places, place{lo, hi})
				if i+1 == cs.At {
					faultyFound = len(found)
				}
			} else {
				missing = append(missing, patcher.MissingBlockSpan{StartBlock: uint(b), EndBlock: uint(b + s.N - 1), BlockSize: int64(sh.bs)})
			}
			b += s.N
		}
		for i := len(places) - 1; i >= 0; i-- {
			// a span with a short end of several blocks has to be last in the file
			if found[i].EndBlock == uint(total-1) && found[i].StartBlock != found[i].EndBlock && sh.last < sh.bs {
				continue
			}
			local = append(local, 0xff)
			found[i].MatchOffset = base + int64(len(local))
			local = append(local, ref[places[i].lo:places[i].hi]...)
		}
		if n := len(places) - 1; n >= 0 && found[n].MatchOffset == 0 {
			local = append(local, 0xff)
			found[n].MatchOffset = base + int64(len(local))
			local = append(local, ref[places[n].lo:places[n].hi]...)
		}
		for mode := 0; mode < 2; mode++ { // answers at once or later
			c.Step()
			name := fmt.Sprintf("block size %d/%d, %d for each, local file from %d, mode %d", sh.bs, sh.last, sh.r, base, mode)
			src := &scriptSource{results: make(chan patcher.BlockReponse, 1), errs: make(chan error, 1)}
			if mode == 1 {
				src.results, src.errs = make(chan patcher.BlockReponse), make(chan error)
			}
			reqsBefore := 0
			for i, s := range cs.Spans {
				if i+1 < cs.At && !s.Found {
					reqsBefore++
				}
			}
			missingFault := cs.At > 0 && !cs.Spans[cs.At-1].Found && !strings.HasPrefix(cs.Kind, "write")
			src.answer = func(s *scriptSource, n int, sp patcher.MissingBlockSpan) error {
				lo, hi := int(sp.StartBlock)*sh.bs, (int(sp.EndBlock)+1)*sh.bs
				if hi > size {
					hi = size
				}
				if lo > hi {
					lo = hi
				}
				res := patcher.BlockReponse{StartBlock: sp.StartBlock, Data: ref[lo:hi]}
				var fail error
				silent := false
				if missingFault && n == reqsBefore+1 {
					switch cs.Kind {
					case "requestErr":
						return errSource
					case "sourceErr":
						fail, silent = errSource, true
					case "lateErr":
						fail, silent = errSource, true
						go func() { time.Sleep(time.Minute); s.errs <- fail }()
						return nil
					case "wrongBlock":
						res.StartBlock++
					case "laterBlock":
						res.StartBlock = sp.EndBlock + 1
						res.Data = ref[hi:min(hi+sh.bs, size)]
					case "earlierBlock", "firstBlock":
						res.StartBlock = sp.StartBlock - 1
						if cs.Kind == "firstBlock" {
							res.StartBlock = 0
						}
						lo2 := int(res.StartBlock) * sh.bs
						res.Data = ref[lo2 : lo2+hi-lo]
					case "fewer":
						res.Data = ref[lo : hi-((hi-lo-1)%sh.bs+1)]
					case "more":
						res.Data = ref[lo:min(hi+sh.bs, size)]
					case "shortBytes":
						if sh.bs == 1 {
							res.Data = nil
						} else {
							res.Data = ref[lo : hi-1]
						}
					case "empty":
						res.Data = nil
					case "closedResults", "closedBoth", "closedErrors":
						if cs.Kind != "closedErrors" {
							close(s.results)
						}
						if cs.Kind != "closedResults" {
							close(s.errs)
						}
						return nil
					}
				}
				send := func() {
					if fail != nil {
						s.errs <- fail
					}
					if !silent {
						s.results <- res
					}
				}
				if mode == 0 {
					send()
				} else {
					go func() { time.Sleep(time.Second); send() }()
				}
				return nil
			}
			loc := &faultyLocal{ReadSeeker: &shiftedReader{bytes.NewReader(local), base}, failAt: faultyFound, kind: cs.Kind}
			switch cs.Kind {
			case "readMid", "readData":
				loc.left = faultLen / 2
			case "short":
				loc.left = faultLen / 2
			case "shortEnd":
				loc.left = faultLen - 1
			}
			if cs.Kind == "readData" && loc.left == 0 {
				loc.kind = "readStart"
			}
			w := &faultyWriter{limit: -1}
			if cs.Kind == "write" {
				w.limit = bytesBefore
			} else if cs.Kind == "writePart" {
				w.limit = bytesBefore + faultLen/2
			} else if cs.Kind == "writeAll" {
				w.limit, w.armed = bytesBefore+faultLen, true
			}
			var rs io.ReadSeeker = onlyReadSeeker{loc}
			if cs.At == 0 && mode == 0 && base == 0 {
				rs = bytes.NewReader(local)
			}
			var from patcher.BlockSource = src
			if cs.Kind == "noSource" {
				from = nil
			}
			err := sequential.SequentialPatcher(rs, from, missing, found, 1<<20, w)
			fault := fmt.Sprintf("%s: fault %q at span %d of %+v", name, cs.Kind, cs.At, cs.Spans)
			switch {
			case err == nil && !cs.OK:
				c.Diverge("C02", "%s is not reported", fault)
			case err != nil && cs.OK:
				c.Diverge("C01", "%s: error %v", fault, err)
			case err == nil && !bytes.Equal(w.buf, ref):
				c.Diverge("C01 C02", "%s: success, but the output differs: %v instead of %v", fault, head(w.buf), head(ref))
			case !bytes.HasPrefix(ref, w.buf):
				c.Diverge("C02", "%s: the output %v is no prefix of %v", fault, head(w.buf), head(ref))
			}
			// requests: the missing spans in order, each block once
			var flat, want []uint
			for _, r := range src.reqs {
				for b := r.StartBlock; b <= r.EndBlock; b++ {
					flat = append(flat, b)
				}
			}
			for _, r := range cs.Reqs {
				for b := r[0] * sh.r; b < (r[1]+1)*sh.r; b++ {
					want = append(want, uint(b))
				}
			}
			if cs.OK && !slices.Equal(flat, want) {
				c.Diverge("C03", "%s: %d blocks requested (%v), expected %d (%v)", fault, len(flat), src.reqs, len(want), cs.Reqs)
			} else if !cs.OK {
				all := map[uint]int{}
				for i, b := range flat {
					all[b]++
					if all[b] > 1 || (i > 0 && flat[i-1] >= b) {
						c.Diverge("C03", "%s: %v requested", fault, src.reqs)
						break
					}
				}
				for _, f := range found {
					for b := f.StartBlock; b <= f.EndBlock; b++ {
						if all[b] > 0 {
							c.Diverge("C03", "%s: block %d requested although it is found", fault, b)
						}
					}
				}
			}
		}
	}
}

func head(b []byte) string {
	if len(b) <= 200 {
		return fmt.Sprint(b)
	}
	return fmt.Sprintf("%v... (%d bytes)", b[:200], len(b))
}
