package vh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sync"

	"github.com/Redundancy/go-sync/util/readers"
)

// Readers.tla

func init() {
	suites["readers"] = &suite{run: runReaders}
}

var readerSeeds = []int{0, 5, -3, 87178291198, 1 << 40, 123456789}

type rexpr struct {
	kind string
	a, b int
	es   []rexpr
}

func parseExpr(raw json.RawMessage) (e rexpr) {
	var parts []json.RawMessage
	mustJSON(raw, &parts)
	mustJSON(parts[0], &e.kind)
	mustJSON(parts[1], &e.a)
	switch e.kind {
	case "uni", "seq":
		mustJSON(parts[2], &e.b)
	case "inj":
		e.es = []rexpr{parseExpr(parts[2]), parseExpr(parts[3])}
	case "lim":
		var l []json.RawMessage
		mustJSON(parts[2], &l)
		for _, p := range l {
			e.es = append(e.es, parseExpr(p))
		}
	}
	return
}

// the elements of the sequences, read once in small pieces
var (
	seqCache = map[int][]byte{}
	seqMu    sync.Mutex
)

func seqBytes(i, n int) []byte {
	seqMu.Lock()
	defer seqMu.Unlock()
	if seqCache[i] == nil {
		b := make([]byte, 1<<18)
		r := readers.NewNonRepeatingSequence(readerSeeds[i])
		for p := 0; p < len(b); p += 512 {
			if _, err := io.ReadFull(r, b[p:p+512]); err != nil {
				panic(err)
			}
		}
		seqCache[i] = b
	}
	return seqCache[i][:n]
}

// what Stream of the specification says, lengths times scale
func (e rexpr) stream(scale int) []byte {
	switch e.kind {
	case "uni":
		return bytes.Repeat([]byte{byte(e.a)}, e.b*scale)
	case "seq":
		return append([]byte(nil), seqBytes(e.a, e.b*scale)...)
	case "inj":
		b, off := e.es[0].stream(scale), e.a*scale
		if off > len(b) {
			off = len(b)
		}
		return append(append(append([]byte(nil), b[:off]...), e.es[1].stream(scale)...), b[off:]...)
	}
	var all []byte
	for _, s := range e.es {
		all = append(all, s.stream(scale)...)
	}
	if e.a*scale < len(all) {
		all = all[:e.a*scale]
	}
	return all
}

func (e rexpr) build(scale int) io.Reader {
	switch e.kind {
	case "uni":
		if e.a == 0 {
			return readers.ZeroReader(e.b * scale)
		}
		return readers.OneReader(e.b * scale)
	case "seq":
		return readers.NewSizedNonRepeatingSequence(readerSeeds[e.a], int64(e.b*scale))
	case "inj":
		return readers.InjectedReader(int64(e.a*scale), e.es[0].build(scale), e.es[1].build(scale))
	}
	var rs []io.Reader
	for _, s := range e.es {
		rs = append(rs, s.build(scale))
	}
	return readers.SequenceLimit(int64(e.a*scale), rs...)
}

func runReaders(c *Ctx, raw json.RawMessage) {
	var cs struct {
		X      json.RawMessage `json:"x"`
		Sizes  []int           `json:"sizes"`
		Stream []int           `json:"stream"`
	}
	mustJSON(raw, &cs)
	c.Expect("C22")
	e := parseExpr(cs.X)
	if c.res.Cases == 1 {
		checkSequences(c)
	}
	for _, scale := range []int{1, 257, 20011} {
		if scale > 1 && c.idx%7 != 0 || scale > 1000 && c.idx%91 != 0 {
			continue
		}
		want := e.stream(scale)
		if scale == 1 {
			if len(want) != len(cs.Stream) {
				panic("stream of the harness differs from the specification")
			}
			for i, v := range cs.Stream {
				if v >= 1000 {
					v = int(seqBytes(v/1000-1, v%1000+1)[v%1000])
				}
				if byte(v) != want[i] {
					panic("stream of the harness differs from the specification")
				}
			}
		}
		for again := 0; again < 2; again++ {
			name := fmt.Sprintf("%s times %d, reads %v", cs.X, scale, cs.Sizes)
			r := e.build(scale)
			pos, idle := 0, 0
			for i := 0; ; i++ {
				c.Step()
				k := 3 * scale // after the behaviour, to the end
				if i < len(cs.Sizes) {
					k = cs.Sizes[i] * scale
				}
				buf := bytes.Repeat([]byte{0xA5}, k+2)
				n, err := r.Read(buf[:k])
				if n < 0 || n > k {
					c.Diverge("C22", "%s: read %d of %d returned %d", name, i, k, n)
					return
				}
				if !bytes.Equal(buf[k:], []byte{0xA5, 0xA5}) {
					c.Diverge("C22", "%s: read %d wrote behind its buffer", name, i)
					return
				}
				if pos+n > len(want) {
					c.Diverge("C22", "%s: more than the %d promised bytes", name, len(want))
					return
				}
				if !bytes.Equal(buf[:n], want[pos:pos+n]) {
					c.Diverge("C22", "%s: read %d returned %d bytes at %d that differ: %.60v, expected %.60v", name, i, n, pos, buf[:n], want[pos:pos+n])
					return
				}
				pos += n
				if err == io.EOF {
					if pos != len(want) {
						c.Diverge("C22", "%s: read %d ends the stream after %d of %d bytes", name, i, pos, len(want))
						return
					}
					break
				}
				if err != nil {
					c.Diverge("C22", "%s: read %d fails: %v", name, i, err)
					return
				}
				if n > 0 || k == 0 {
					idle = 0
				} else if idle++; idle > 50 {
					c.Diverge("C22", "%s: no progress and no end after %d of %d bytes", name, pos, len(want))
					return
				}
			}
			// the end stays the end
			for i := 0; i < 2; i++ {
				if n, err := r.Read(make([]byte, 2)); n != 0 || err != io.EOF {
					c.Diverge("C22", "%s: reading after the end returned %d, %v", name, n, err)
					return
				}
			}
		}
	}
}

// sequences repeat themselves from construction to construction, differ from each other and have no short period
func checkSequences(c *Ctx) {
	for i, s := range readerSeeds {
		b := seqBytes(i, 1<<16)
		other := make([]byte, 1<<16)
		r := readers.NewNonRepeatingSequence(s)
		for p := 0; p < len(other); {
			n, err := r.Read(other[p : p+min(1+p%61, len(other)-p)])
			if err != nil || n == 0 {
				c.Diverge("C22", "sequence %d ends after %d bytes: %v", s, p, err)
				return
			}
			p += n
		}
		if !bytes.Equal(b, other) {
			c.Diverge("C22", "sequence %d depends on how it is read", s)
		}
		for j := 0; j < i; j++ {
			if bytes.Equal(b[:4096], seqBytes(j, 4096)) {
				c.Diverge("C22", "sequences %d and %d are the same", s, readerSeeds[j])
			}
		}
		for p := 1; p <= 1024; p++ {
			if bytes.Equal(b[p:8192], b[:8192-p]) {
				c.Diverge("C22", "sequence %d repeats itself every %d bytes", s, p)
				break
			}
		}
	}
}
