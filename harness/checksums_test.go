package vh

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash"
	"io"
	"math/rand"
	"sync"
	"time"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/indexbuilder"
)

// ChecksumGen.tla

func init() {
	suites["checksums"] = &suite{run: runChecksums, bubble: true}
}

type checksumCase struct {
	Bs      int    `json:"bs"`
	Bpr     int    `json:"bpr"`
	N       int    `json:"n"`
	Fault   string `json:"fault"`
	At      int    `json:"at"`
	Fails   bool   `json:"fails"`
	Entries int    `json:"entries"`
}

// weakSum is SumA and SumB of Rolling.tla
func weakSum(d []byte) []byte {
	var a, b uint32
	for _, x := range d {
		a = (a + uint32(x)) % 65536
		b = (b + a) % 65536
	}
	return binary.LittleEndian.AppendUint32(nil, a|b<<16)
}

// pace makes the goroutines that share a generator take turns in (virtual) time
type pace struct {
	mu   sync.Mutex
	mode int
	rnd  *rand.Rand
}

func (p *pace) wait(reset bool) {
	p.mu.Lock()
	d := 0
	switch p.mode {
	case 1:
		if reset {
			d = 1
		}
	case 2:
		if !reset {
			d = 1
		}
	case 3:
		d = p.rnd.Intn(4)
	case 4:
		if reset {
			d = 1 + p.rnd.Intn(9)
		} else {
			d = p.rnd.Intn(3)
		}
	}
	p.mu.Unlock()
	if d > 0 {
		time.Sleep(time.Duration(d) * time.Millisecond)
	}
}

type pacedHash struct {
	hash.Hash
	p *pace
}

func (h pacedHash) Reset()                      { h.p.wait(true); h.Hash.Reset() }
func (h pacedHash) Write(b []byte) (int, error) { h.p.wait(false); return h.Hash.Write(b) }
func (h pacedHash) Sum(b []byte) []byte         { h.p.wait(false); return h.Hash.Sum(b) }

type pacedRoll struct {
	filechecksum.RollingHash
	p *pace
}

func (h pacedRoll) Reset()            { h.p.wait(true); h.RollingHash.Reset() }
func (h pacedRoll) SetBlock(b []byte) { h.p.wait(false); h.RollingHash.SetBlock(b) }
func (h pacedRoll) AddBytes(b []byte) { h.p.wait(false); h.RollingHash.AddBytes(b) }
func (h pacedRoll) GetSum(b []byte)   { h.p.wait(false); h.RollingHash.GetSum(b) }

type pacedReader struct {
	io.Reader
	p *pace
}

func (r pacedReader) Read(b []byte) (int, error) { r.p.wait(false); return r.Reader.Read(b) }

var errCompress = errors.New("cannot be compressed")

func runChecksums(c *Ctx, raw json.RawMessage) {
	var cs checksumCase
	mustJSON(raw, &cs)
	if cs.Fault == "none" && cs.N > 0 && cs.N < 20 {
		// more bytes, or more blocks, for each of the model's: past the borders of the narrower integers
		big := cs
		switch k := cs.N + 2*cs.Bpr; {
		case cs.Bs == 1 && k%5 == 1:
			big.N, big.Bpr = cs.N*(70000/cs.N+1), cs.Bpr*50
		case cs.Bs == 1 && k%2 == 0:
			big.N, big.Bpr = cs.N*300, cs.Bpr*100
		case cs.Bs > 1 && k%5 == 1:
			u := 70000/cs.Bs + 1
			big.N, big.Bs = cs.N*u, cs.Bs*u
		}
		if big.N > cs.N {
			c.Expect("C16")
			for _, api := range []string{"start", "generate", "build"} {
				checksumRuns(c, &big, api, io.EOF, 0, 0)
				checksumRuns(c, &big, api, io.EOF, 4, 0)
			}
		}
	}
	if cs.Fault == "none" && cs.Bs == 2 && cs.N == 3 && cs.Bpr == 1 { // blocks of 80 million bytes
		big := cs
		big.N, big.Bs = 120_000_003, 80_000_001
		c.Expect("C16")
		checksumRuns(c, &big, "start", io.EOF, 0, 0)
	}
	if cs.Fault == "none" && cs.Bs > 1 {
		// other block sizes, with a last block of one byte or one byte short of a block
		u := []int{63, 64, 65, 100, 255, 256, 257, 1000, 4096, 4097}[(cs.N+cs.Bpr)%10]
		rest := []int{0}
		if cs.N%cs.Bs != 0 {
			rest = []int{1, 2, u / 2, u - 1}
		}
		c.Expect("C16")
		for i, r := range rest {
			other := cs
			other.Bs, other.N = u, cs.N/cs.Bs*u+r
			checksumRuns(c, &other, []string{"start", "generate", "build"}[(cs.N+i)%3], io.EOF, (cs.N+i)%5, 0)
		}
	}
	readErrs := []error{io.EOF}
	if cs.Fault == "read" {
		readErrs = []error{errRead, io.ErrUnexpectedEOF, io.ErrNoProgress, errOnce}
	}
	apis := []string{"start", "generate", "build"}
	switch cs.Fault {
	case "compress":
		apis = apis[:1]
	case "write":
		apis = apis[1:2]
	}
	pauses := 5
	if cs.N > 20 {
		pauses = 2
	}
	for _, api := range apis {
		for ei, e := range readErrs {
			for mode := 0; mode < 5; mode++ {
				for pm := 0; pm < pauses; pm++ {
					if (mode+ei)%2 == 1 && pm > 1 { // half the readers with every pace
						continue
					}
					c.Expect("C16")
					checksumRuns(c, &cs, api, e, mode, pm)
					c.Expect("")
					if len(c.res.Divs) > 50 {
						return
					}
				}
			}
		}
	}
}

func checksumRuns(c *Ctx, cs *checksumCase, api string, readErr error, mode, paceMode int) {
	rnd := rand.New(rand.NewSource(seed*104729 + int64(cs.N*1000+cs.Bs*100+cs.Bpr*10+mode)))
	p := &pace{mode: paceMode, rnd: rnd}
	gen := filechecksum.NewFileChecksumGenerator(uint(cs.Bs))
	strongOf, fileOf := md5.New, md5.New
	if (mode+paceMode)%3 == 1 { // any hashes
		strongOf, fileOf = sha256.New, sha1.New
		gen.StrongHash, gen.FileChecksumHash = strongOf(), fileOf()
	}
	hashed := func(h hash.Hash, d []byte) []byte {
		h.Write(d)
		return h.Sum(nil)
	}
	size := strongOf().Size()
	if w, s := gen.GetChecksumSizes(); w != 4 || s != size || gen.ChecksumSize() != 4+size {
		c.Diverge("C16", "sizes of checksums %d, %d, %d, expected 4 and %d", w, s, gen.ChecksumSize(), size)
		return
	}
	gen.WeakRollingHash = pacedRoll{gen.WeakRollingHash, p}
	gen.StrongHash = pacedHash{gen.StrongHash, p}
	gen.FileChecksumHash = pacedHash{gen.FileChecksumHash, p}
	var open []<-chan filechecksum.ChecksumResults
	for run := 1; run <= 2; run++ {
		c.Step()
		data := make([]byte, cs.N)
		for i := range data {
			data[i] = byte(rnd.Intn(256))
		}
		var weak, strong [][]byte
		var all []byte
		var blocks [][]byte
		for i := 0; i < len(data); i += cs.Bs {
			e := i + cs.Bs
			if e > len(data) {
				e = len(data)
			}
			w, s := weakSum(data[i:e]), hashed(strongOf(), data[i:e])
			weak, strong, blocks = append(weak, w), append(strong, s), append(blocks, data[i:e])
			all = append(append(all, w...), s...)
		}
		sum := hashed(fileOf(), data)
		if run == 2 && mode%2 == 1 { // whatever the hashes were used for meanwhile
			gen.GetStrongHash().Write(data)
			gen.GetFileHash().Write([]byte{1, 2, 3})
			gen.WeakRollingHash.AddBytes([]byte{9, 9})
			if mode == 3 {
				gen.Reset()
			}
		}
		name := fmt.Sprintf("%s, run %d of %+v, reader %d (%v), pace %d", api, run, *cs, mode, readErr, paceMode)
		fault := run == 1 && cs.Fails
		var in io.Reader = newFrag(data, mode, io.EOF)
		if run == 1 && cs.Fault == "read" {
			if in = newFrag(data[:cs.At], mode, readErr); readErr == errOnce {
				in = newFragOnce(data, cs.At, mode, readErr)
			}
		}
		in = pacedReader{in, p}

		var err error
		var got []byte
		var list []chunks.ChunkChecksum
		switch api {
		case "start":
			var comp filechecksum.CompressionFunction
			k := 0
			if cs.Fault == "compress" || mode == 0 {
				comp = func(b []byte) (int64, error) {
					if k++; k > len(blocks) || !bytes.Equal(b, blocks[k-1]) {
						c.Diverge("C16", "%s: call %d of the compression is for %x", name, k, b)
					}
					if fault && cs.Fault == "compress" && k == cs.At {
						return 0, errCompress
					}
					return int64(1000*k + len(b)), nil
				}
			}
			ch := gen.StartChecksumGeneration(in, uint(cs.Bpr), comp)
			open = append(open, ch)
			for r := range ch {
				list = append(list, r.Checksums...)
				if err = r.Err; err != nil {
					break
				}
				if r.Filechecksum != nil {
					got = r.Filechecksum
					break
				}
				if paceMode == 2 {
					time.Sleep(2 * time.Millisecond)
				}
			}
			if err == nil && got == nil {
				c.Diverge("C16", "%s: the results end without a checksum of the input or an error", name)
				return
			}
		case "generate":
			w := &faultyWriter{limit: -1}
			if run == 1 && cs.Fault == "write" {
				w.limit = (cs.At-1)*(4+size) + []int{0, 3, 4, 11, 3 + size}[mode]
			}
			got, err = gen.GenerateChecksums(in, w)
			if err == nil && !bytes.Equal(w.buf, all) {
				c.Diverge("C16", "%s: wrote %x, expected %x", name, w.buf, all)
				return
			}
		case "build":
			fc, idx, look, e := indexbuilder.BuildChecksumIndex(gen, in)
			if mode == 2 && run == 2 {
				fc, idx, look, e = indexbuilder.BuildIndexFromString(gen, string(data))
			}
			got, err = fc, e
			if err == nil {
				if n := len(weak); int(idx.BlockCount) != n || (n > 0 && look.GetStrongChecksumForBlock(n-1) == nil) {
					c.Diverge("C16", "%s: an index of %d blocks, expected %d", name, idx.BlockCount, len(weak))
					return
				}
				for i := range weak {
					if !bytes.Equal(look.GetStrongChecksumForBlock(i), strong[i]) {
						c.Diverge("C16", "%s: block %d has strong checksum %x, expected %x", name, i, look.GetStrongChecksumForBlock(i), strong[i])
						return
					}
					ok := false
					if m := idx.FindWeakChecksum2(weak[i]); m != nil {
						for _, s := range idx.FindStrongChecksum2(strong[i], m) {
							ok = ok || s.ChunkOffset == uint(i)
						}
					}
					if !ok {
						c.Diverge("C16", "%s: block %d is not found in the index", name, i)
						return
					}
				}
			}
		}
		if fault != (err != nil) {
			if fault {
				c.Diverge("C16", "%s: the failure is not reported", name)
			} else {
				c.Diverge("C16", "%s: error %v", name, err)
			}
			return
		}
		if err != nil {
			continue
		}
		if !bytes.Equal(got, sum) {
			c.Diverge("C16", "%s: checksum of the input %x, expected %x", name, got, sum)
			return
		}
		if api == "start" {
			if len(list) != len(weak) {
				c.Diverge("C16", "%s: %d entries, expected %d", name, len(list), len(weak))
				return
			}
			for i, e := range list {
				if e.ChunkOffset != uint(i) || (mode == 0 && e.Size != int64(1000*(i+1)+len(blocks[i]))) || !bytes.Equal(e.WeakChecksum, weak[i]) || !bytes.Equal(e.StrongChecksum, strong[i]) {
					c.Diverge("C16", "%s: entry %d is %+v, expected %x %x", name, i, e, weak[i], strong[i])
					return
				}
			}
		}
	}
	for _, ch := range open {
		for r := range ch {
			if r.Filechecksum != nil || len(r.Checksums) > 0 {
				c.Diverge("C16", "%s of %+v: results after the final one", api, *cs)
				return
			}
		}
	}
}
