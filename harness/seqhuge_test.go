package vh

import (
	"encoding/json"
	"fmt"
	"io"

	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/patcher/sequential"
)

// SeqPatcher.tla's behaviours without a fault, with found spans of more than 4 GB: nothing of that size is stored

func init() {
	suites["seqhuge"] = &suite{run: runSeqHuge}
}

const (
	hugeBlock  = 1<<20 + 1
	hugeBlocks = 4100 // > 4 GB
	hugePeriod = 65521
)

var hugeText = func() []byte { // starts at any phase
	b := make([]byte, 40*hugePeriod)
	for i := range b {
		k := i % hugePeriod
		b[i] = byte(k ^ k>>8*31)
	}
	return b
}()

// length bytes of the reference from a position
func hugeBytes(at, length int64) []byte {
	off := at % hugePeriod
	return hugeText[off:min(off+length, int64(len(hugeText)))]
}

// a local file that is the reference
type hugeLocal struct{ pos, size int64 }

func (l *hugeLocal) Seek(off int64, w int) (int64, error) {
	switch w {
	case io.SeekCurrent:
		off += l.pos
	case io.SeekEnd:
		off += l.size
	}
	l.pos = off
	return off, nil
}

func (l *hugeLocal) Read(p []byte) (int, error) {
	if l.pos >= l.size {
		return 0, io.EOF
	}
	n := copy(p, hugeBytes(l.pos, min(int64(len(p)), l.size-l.pos)))
	l.pos += int64(n)
	return n, nil
}

// compares what is written with the reference
type hugeOut struct {
	pos int64
	bad int64 // first position that differs, or -1
}

func (o *hugeOut) Write(p []byte) (int, error) {
	for rest := p; len(rest) > 0; {
		want := hugeBytes(o.pos, int64(len(rest)))
		if o.bad < 0 && string(rest[:len(want)]) != string(want) {
			o.bad = o.pos
		}
		rest = rest[len(want):]
		o.pos += int64(len(want))
	}
	return len(p), nil
}

func runSeqHuge(c *Ctx, raw json.RawMessage) {
	var cs seqCase
	mustJSON(raw, &cs)
	if cs.At != 0 || len(cs.Spans) == 0 {
		return
	}
	c.Expect("C01 C02")
	b := uint(0)
	var missing []patcher.MissingBlockSpan
	var found []patcher.FoundBlockSpan
	for _, s := range cs.Spans {
		if s.Found {
			to := b + uint(s.N)*hugeBlocks - 1
			found = append(found, patcher.FoundBlockSpan{StartBlock: b, EndBlock: to, BlockSize: hugeBlock, MatchOffset: int64(b) * hugeBlock})
			b = to + 1
		} else {
			missing = append(missing, patcher.MissingBlockSpan{StartBlock: b, EndBlock: b + uint(s.N) - 1, BlockSize: hugeBlock})
			b += uint(s.N)
		}
	}
	if len(found) != 1 {
		return
	}
	c.Step()
	src := &scriptSource{results: make(chan patcher.BlockReponse, 1), errs: make(chan error, 1)}
	src.answer = func(s *scriptSource, n int, sp patcher.MissingBlockSpan) error {
		var data []byte
		for at, end := int64(sp.StartBlock)*hugeBlock, (int64(sp.EndBlock)+1)*hugeBlock; at < end; {
			d := hugeBytes(at, end-at)
			data = append(data, d...)
			at += int64(len(d))
		}
		s.results <- patcher.BlockReponse{StartBlock: sp.StartBlock, Data: data}
		return nil
	}
	out := &hugeOut{bad: -1}
	size := int64(b) * hugeBlock
	err := sequential.SequentialPatcher(&hugeLocal{size: size}, src, missing, found, 1<<20, out)
	what := fmt.Sprintf("missing %v, found %v", missing, found)
	switch {
	case err != nil:
		c.Diverge("C01", "%s: error %v", what, err)
	case out.bad >= 0:
		c.Diverge("C01 C02", "%s: success, but the output differs from byte %d or a little later", what, out.bad)
	case out.pos != size:
		c.Diverge("C01 C02", "%s: success, but %d bytes instead of %d", what, out.pos, size)
	}
}
