package vh

import (
	"bytes"
	"encoding/json"
	"io"
	"math/rand"
	"testing/synctest"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/patcher"
)

// ReadSource.tla

func init() {
	suites["readsource"] = &suite{run: runReadSource, bubble: true}
}

// seekFrag reads data in pieces as fragReader does, and can seek
type seekFrag struct {
	data  []byte
	bad   int // cannot be read from here on; -1: all can
	badAt int // this seek fails
	seeks int
	pos   int
	mode  int
	rnd   *rand.Rand
	idle  bool
	once  bool // bad only once
}

func (s *seekFrag) Seek(off int64, whence int) (int64, error) {
	s.seeks++
	if s.seeks == s.badAt {
		return 0, errSeek
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(s.pos)
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	if off < 0 {
		return 0, errSeek
	}
	s.pos = int(off)
	return off, nil
}

func (s *seekFrag) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end, err := len(s.data), io.EOF
	if s.bad >= 0 && s.bad < end && s.pos <= s.bad {
		end, err = s.bad, errRead
	} else if s.bad >= 0 && s.pos > s.bad && s.pos < end {
		if s.once {
			s.bad = -1
		}
		return 0, errRead
	}
	if s.pos >= end {
		if s.once && err == errRead {
			s.bad = -1
		}
		return 0, err
	}
	n := min(len(p), end-s.pos)
	switch s.mode {
	case 1, 3:
		n = 1
	case 4:
		if !s.idle && s.rnd.Intn(4) == 0 {
			s.idle = true
			return 0, nil
		}
		s.idle = false
		n = 1 + s.rnd.Intn(n)
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if (s.mode == 2 || s.mode == 3) && s.pos == end {
		return n, err
	}
	return n, nil
}

func runReadSource(c *Ctx, raw json.RawMessage) {
	var cs struct {
		C struct {
			Len   int               `json:"len"`
			Bs    int               `json:"bs"`
			Fs    int               `json:"fs"`
			Spans [][2]uint         `json:"spans"`
			Fault []json.RawMessage `json:"fault"`
			Scale int               `json:"scale"`
			Moves []int             `json:"moves"`
			Late  bool              `json:"late"`
		} `json:"c"`
		Out    [][2]int `json:"out"`
		Failed bool     `json:"failed"`
	}
	mustJSON(raw, &cs)
	c.Expect("C03 C24")
	var kind string
	var at int
	mustJSON(cs.C.Fault[0], &kind)
	mustJSON(cs.C.Fault[1], &at)
	k := cs.C.Scale
	data := make([]byte, cs.C.Len*k)
	for i := range data {
		data[i] = byte(i*7 + i>>8*31 + 3)
	}
	for mode := 0; mode < 7; mode++ {
		if (k > 1000 && (mode == 1 || mode == 3)) || (mode >= 5 && (kind != "read" || k > 1000)) || (mode > 0 && k > 1_000_000) {
			continue
		}
		r := &seekFrag{data: data, bad: -1, mode: []int{0, 1, 2, 3, 4, 0, 4}[mode], once: mode >= 5, rnd: rand.New(rand.NewSource(seed + int64(c.idx)))}
		switch kind {
		case "read":
			r.bad = at * k
		case "seek":
			r.badAt = at
		}
		res := blocksources.MakeNullFixedSizeResolver(uint64(cs.C.Bs * k))
		if cs.C.Fs > 0 {
			res = blocksources.MakeFileSizedBlockResolver(uint64(cs.C.Bs*k), int64(cs.C.Fs*k))
		}
		if !readSourceOne(c, raw, r, res, cs.C.Spans, int64(cs.C.Bs*k), cs.Out, cs.C.Moves, cs.C.Late, k, mode) {
			return
		}
	}
}

func readSourceOne(c *Ctx, raw []byte, r *seekFrag, res blocksources.BlockSourceOffsetResolver, spans [][2]uint, bs int64, out [][2]int, moves []int, late bool, k, mode int) bool {
	src := blocksources.NewReadSeekerBlockSource(r, res)
	defer func() {
		goCall(src.Close)
		synctest.Wait()
		select {
		case <-src.EncounteredError():
		default:
		}
		synctest.Wait()
	}()
	total := int64(0)
	ask := func(j int) bool {
		if j < len(moves) && moves[j] >= 0 {
			r.pos = moves[j] * k
		}
		cl := goCall(func() error {
			return src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: spans[j][0], EndBlock: spans[j][1], BlockSize: bs})
		})
		synctest.Wait()
		if ok, err, crash := cl.get(); !ok || err != nil || crash != nil {
			c.Diverge("C24", "%s, mode %d: request %d: returned=%v err=%v crash=%v", raw, mode, j+1, ok, err, crash)
			return false
		}
		return true
	}
	for j := 0; late && j < len(spans); j++ {
		if !ask(j) {
			return false
		}
	}
	for j := 0; j <= len(out) && j < len(spans); j++ {
		c.Step()
		if !late && !ask(j) {
			return false
		}
		synctest.Wait()
		var got []byte
		var start uint
		var err error
		state := "nothing"
		select {
		case x, ok := <-src.GetResultChannel():
			if ok {
				state, got, start = "data", x.Data, x.StartBlock
			}
		default:
			select {
			case e, ok := <-src.EncounteredError():
				if ok {
					state, err = "error", e
				}
			default:
			}
		}
		if j == len(out) { // the specification fails here
			if state != "error" || err == nil {
				c.Diverge("C24", "%s, mode %d: range %d gives %s (%d bytes), specification: an error", raw, mode, j+1, state, len(got))
				return false
			}
			return true
		}
		want := r.data[out[j][0]*k : (out[j][0]+out[j][1])*k]
		if state != "data" {
			c.Diverge("C24", "%s, mode %d: range %d gives %s %v, specification: %d bytes", raw, mode, j+1, state, err, len(want))
			return false
		}
		if start != spans[j][0] || !bytes.Equal(got, want) {
			c.Diverge("C24", "%s, mode %d: range %d gives block %d with %d bytes %.40x, specification: %d bytes %.40x", raw, mode, j+1, start, len(got), got, len(want), want)
			return false
		}
		total += int64(len(got))
		if n := src.ReadBytes(); !late && n != total {
			c.Diverge("C03", "%s: ReadBytes is %d, %d were delivered", raw, n, total)
			return false
		}
	}
	return true
}
