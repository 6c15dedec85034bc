package vh

import (
	"bytes"
	"crypto/md5"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"hash"
	"io"
	"math"
	"sort"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
)

func init() {
	suites["resolver"] = &suite{run: runResolver}
	suites["index"] = &suite{run: runIndex}
	suites["verifier"] = &suite{run: runVerifier}
	suites["indexfile"] = &suite{run: runIndexFile}
}

// ---------------------------------------------------------------- Resolver.tla

type resolverCase struct {
	Idx   int        `json:"idx"`
	Var   string     `json:"var"`
	Bs    int64      `json:"bs"`
	Fs    int64      `json:"fs"`
	Want  int64      `json:"want"`
	S     int64      `json:"s"`
	E     int64      `json:"e"`
	Split [][2]int64 `json:"split"`
	Off   [][2]int64 `json:"off"`
}

// byte quantities are multiplied, block numbers shifted: results must scale alike
func runResolver(c *Ctx, raw json.RawMessage) {
	var cs resolverCase
	mustJSON(raw, &cs)
	c.Expect("C12")
	for _, scale := range []int64{1, 4096, 1<<33 + 7} {
		for _, shift := range []int64{0, 1000003} {
			c.Step()
			r := &blocksources.FixedSizeBlockResolver{BlockSize: uint64(cs.Bs * scale), MaxDesiredRequestSize: uint64(cs.Want * scale)}
			if cs.Fs != 0 {
				r.FileSize = (cs.Fs + shift*cs.Bs) * scale
			}
			out := cs
			out.Idx = c.idx
			out.Var = fmt.Sprintf("scale %d shift %d", scale, shift)
			out.Split, out.Off = [][2]int64{}, [][2]int64{}
			ok := true
			un := func(v int64) int64 {
				v -= shift * cs.Bs * scale
				if v%scale != 0 {
					ok = false
				}
				return v / scale
			}
			for b := cs.S; b <= cs.E; b++ {
				out.Off = append(out.Off, [2]int64{un(r.GetBlockStartOffset(uint(b + shift))), un(r.GetBlockEndOffset(uint(b + shift)))})
			}
			if !ok {
				c.Diverge("C12", "%s: offsets that are no multiple of the scale: %+v", out.Var, out)
				return
			}
			rs := r.SplitBlockRangeToDesiredSize(uint(cs.S+shift), uint(cs.E+shift))
			for _, q := range rs {
				out.Split = append(out.Split, [2]int64{int64(q.StartBlockID) - shift, int64(q.EndBlockID) - shift})
			}
			same := fmt.Sprint(out.Split, out.Off) == fmt.Sprint(cs.Split, cs.Off)
			if !same {
				c.Note("differs from the model, judged by TLC")
				c.TraceDiff(out)
			} else if c.idx%61 == 0 {
				c.Trace(out)
			}
		}
	}
	if cs.Want%cs.Bs != 0 {
		return
	}
	// many blocks for each of the model's, and as many in a request
	for _, f := range []int64{70000, 1<<32 + 7} {
		c.Step()
		r := &blocksources.FixedSizeBlockResolver{BlockSize: uint64(cs.Bs), MaxDesiredRequestSize: uint64(cs.Want * f), FileSize: cs.Fs * f}
		want, got := [][2]int64{}, [][2]int64{}
		for _, q := range cs.Split {
			want = append(want, [2]int64{q[0] * f, (q[1]+1)*f - 1})
		}
		for k, b := 0, cs.S; b <= cs.E; k, b = k+1, b+1 {
			want = append(want, [2]int64{cs.Off[k][0] * f, cs.Off[k][1] * f})
		}
		for _, q := range r.SplitBlockRangeToDesiredSize(uint(cs.S*f), uint((cs.E+1)*f-1)) {
			got = append(got, [2]int64{int64(q.StartBlockID), int64(q.EndBlockID)})
		}
		for b := cs.S; b <= cs.E; b++ {
			got = append(got, [2]int64{r.GetBlockStartOffset(uint(b * f)), r.GetBlockEndOffset(uint((b+1)*f - 1))})
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.Diverge("C12", "%d blocks for each of %s: requests and offsets %v, expected %v", f, raw, got, want)
			return
		}
	}
}

// ---------------------------------------------------------------- Index.tla

type indexCase struct {
	List      [][2]int `json:"list"`
	Longest   int      `json:"longest"`
	Different int      `json:"different"`
	Ans       []struct {
		W int   `json:"w"`
		S int   `json:"s"`
		B []int `json:"b"`
	} `json:"ans"`
}

var weakVals = [][]byte{{1, 0, 0, 0}, {2, 0, 0, 0}, {1, 1, 0, 0}, {1, 0, 0, 128}, {255, 255, 255, 255}, {255, 0, 0, 0}, {0, 0, 0, 0}, {1, 1, 1, 1}}

func strongVal(s int, kind int) []byte {
	v := bytes.Repeat([]byte{0x80}, 16)
	switch kind {
	case 0:
		v[15] += byte(s)
	case 1:
		v[0] -= byte(s) // reversed order
	case 2:
		v[0], v[15] = byte(s*7), byte(200-s)
	}
	return v
}

func runIndex(c *Ctx, raw json.RawMessage) {
	var cs indexCase
	mustJSON(raw, &cs)
	c.Expect("C15")
	for mode := 0; mode < 3; mode++ {
		r, base := 1, uint(0) // entries as they are, with numbers of their own
		switch {
		case c.idx%211 == 40:
			r, base = 70000/(len(cs.List)+1), 1<<32-3
		case c.idx%16 == 3:
			r, base = 300, 65530
		}
		runIndexScaled(c, &cs, r, mode, base, uint(1+(c.idx+mode)%3*77))
	}
	for kind := 0; kind < 3; kind++ {
		perm := func(w int) []byte { return weakVals[(w+kind*3)%len(weakVals)] }
		if kind == 0 {
			perm = func(w int) []byte { // 0 and 2 share the low byte, as in the model
				return [][]byte{{1, 0, 0, 0}, {2, 0, 0, 0}, {1, 1, 0, 0}, {2, 0, 7, 0}}[w%4]
			}
		}
		list := make([]chunks.ChunkChecksum, len(cs.List))
		for i, e := range cs.List {
			list[i] = chunks.ChunkChecksum{ChunkOffset: uint(i), WeakChecksum: perm(e[0]), StrongChecksum: strongVal(e[1], kind)}
		}
		idx := index.MakeChecksumIndex(list)
		if idx.BlockCount != len(list) || idx.Count != len(list) || idx.WeakCount() != len(list) || idx.MaxStrongLength != cs.Longest ||
			(len(list) > 0 && math.Abs(float64(idx.AverageStrongLength)-float64(len(list))/float64(cs.Different)) > 1e-4) {
			c.Diverge("C15", "kind %d: statistics %d, %d, %d, %d, %v of %v", kind, idx.BlockCount, idx.Count, idx.WeakCount(), idx.MaxStrongLength, idx.AverageStrongLength, cs.List)
			return
		}
		for i, e := range list { // entries match by their checksums alone
			for j, o := range list {
				if e.Match(o) != (cs.List[i] == cs.List[j]) {
					c.Diverge("C15", "kind %d: entries %d and %d of %v: match %v", kind, i, j, cs.List, e.Match(o))
					return
				}
			}
		}
		check := func(n int) bool {
			a := cs.Ans[n]
			c.Step()
			w, s := append([]byte(nil), perm(a.W)...), strongVal(a.S, kind)
			var got []int
			if m := idx.FindWeakChecksum2(w); m != nil {
				for _, r := range idx.FindStrongChecksum2(s, m) {
					got = append(got, int(r.ChunkOffset))
					if !bytes.Equal(r.WeakChecksum, w) || !bytes.Equal(r.StrongChecksum, s) {
						c.Diverge("C15", "kind %d: query (%d, %d) returned block %d with other checksums", kind, a.W, a.S, r.ChunkOffset)
						return false
					}
				}
			} else if r := idx.FindStrongChecksum2(s, nil); len(r) != 0 {
				c.Diverge("C15", "kind %d: blocks without a weak match", kind)
				return false
			}
			sort.Ints(got)
			want := append([]int(nil), a.B...)
			sort.Ints(want)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				c.Diverge("C15", "kind %d: query (%d, %d) in %v returned blocks %v, expected %v", kind, a.W, a.S, cs.List, got, want)
				return false
			}
			return true
		}
		for n := range cs.Ans {
			if !check(n) {
				return
			}
		}
		// lookups do not change the index
		for n := len(cs.Ans) - 1; n >= 0; n -= 2 {
			if !check(n) {
				return
			}
		}
	}
}

// every entry of the model's list stands for r entries of the real one, numbered from base on in steps: the same
// checksums (mode 0), strong checksums of their own (1), weak checksums of their own (2)
func runIndexScaled(c *Ctx, cs *indexCase, r, mode int, base, step uint) {
	n := len(cs.List)
	what := fmt.Sprintf("%d entries for each, mode %d, numbered from %d in steps of %d", r, mode, base, step)
	weak := func(w, j int) []byte {
		v := weakVals[w%len(weakVals)]
		if mode == 2 {
			x := uint32(w%2) | uint32(w/2*(r+1)+j)<<8
			v = []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}
		}
		return append([]byte(nil), v...)
	}
	strong := func(s, j int) []byte {
		v := strongVal(s, 2)
		if mode == 1 {
			v[5], v[6], v[7] = byte(j), byte(j>>8), byte(j>>16)
		}
		return v
	}
	number := func(i, j int) uint { return base + uint(j*n+i)*step }
	list := make([]chunks.ChunkChecksum, 0, n*r)
	for j := 0; j < r; j++ {
		for i, e := range cs.List {
			list = append(list, chunks.ChunkChecksum{ChunkOffset: number(i, j), WeakChecksum: weak(e[0], j), StrongChecksum: strong(e[1], j)})
		}
	}
	idx := index.MakeChecksumIndex(list)
	longest, different := cs.Longest*r, cs.Different
	if mode == 2 {
		longest, different = cs.Longest, cs.Different*r
	}
	if idx.BlockCount != n*r || idx.Count != n*r || idx.WeakCount() != n*r || idx.MaxStrongLength != longest ||
		(n > 0 && math.Abs(float64(idx.AverageStrongLength)*float64(different)/float64(n*r)-1) > 1e-4) {
		c.Diverge("C15", "%s: statistics %d, %d, %d, %d, %v of %v", what, idx.BlockCount, idx.Count, idx.WeakCount(), idx.MaxStrongLength, idx.AverageStrongLength, cs.List)
		return
	}
	for _, a := range cs.Ans {
		for _, j := range []int{0, 1, r / 2, r - 1, r} { // the last one is in no list
			c.Step()
			var want []uint
			for _, b := range a.B {
				for k := 0; k < r; k++ {
					if mode == 0 || k == j {
						want = append(want, number(b, k))
					}
				}
			}
			var got []uint
			if m := idx.FindWeakChecksum2(weak(a.W, j)); m != nil {
				for _, r := range idx.FindStrongChecksum2(strong(a.S, j), m) {
					got = append(got, r.ChunkOffset)
				}
			}
			sort.Slice(got, func(x, y int) bool { return got[x] < got[y] })
			sort.Slice(want, func(x, y int) bool { return want[x] < want[y] })
			same := len(got) == len(want)
			for k := 0; same && k < len(got); k++ {
				same = got[k] == want[k]
			}
			if !same {
				c.Diverge("C15", "%s: query (%d, %d), copy %d, in %v returned %d blocks, expected %d", what, a.W, a.S, j, cs.List, len(got), len(want))
				return
			}
		}
	}
}

// ---------------------------------------------------------------- Verifier.tla

type verifierCase struct {
	N     int   `json:"n"`
	Known []int `json:"known"`
	Calls []struct {
		F   int   `json:"f"`
		L   int   `json:"l"`
		Bad []int `json:"bad"`
		OK  bool  `json:"ok"`
	} `json:"calls"`
}

type lookup map[int][]byte

func (l lookup) GetStrongChecksumForBlock(b int) []byte { return l[b] }

// r blocks for each of the model's, of which one is damaged where the model's is
func runVerifierScaled(c *Ctx, cs *verifierCase, r int) {
	const bs = 3
	content := func(b int) []byte { // b: a real block
		d := []byte{byte(b), byte(b >> 8), byte(b>>16) + 7}
		if b == cs.N*r-1 {
			d = d[:2]
		}
		return d
	}
	sums := lookup{}
	for _, m := range cs.Known {
		for b := m * r; b < (m+1)*r; b++ {
			s := md5.Sum(content(b))
			sums[b] = s[:]
		}
	}
	v := &filechecksum.HashVerifier{BlockSize: bs, Hash: md5.New(), BlockChecksumGetter: sums}
	for n, call := range cs.Calls {
		for _, where := range []int{0, r / 2, r - 1, r * 15 / 16} {
			var data []byte
			for b := call.F * r; b < (call.L+1)*r; b++ {
				data = append(data, content(b)...)
			}
			for _, m := range call.Bad {
				data[((m-call.F)*r+where)*bs] ^= 0x10
			}
			c.Step()
			if got := v.VerifyBlockRange(uint(call.F*r), data); got != call.OK {
				c.Diverge("C10", "%d blocks for each: call %d (%+v), damaged at %d: accepted: %v", r, n+1, call, where, got)
				return
			}
		}
	}
}

func runVerifier(c *Ctx, raw json.RawMessage) {
	var cs verifierCase
	mustJSON(raw, &cs)
	c.Expect("C10")
	switch {
	case c.idx%101 == 3:
		runVerifierScaled(c, &cs, 70000)
	case c.idx%6 == 1:
		runVerifierScaled(c, &cs, 300)
	}
	type shape struct {
		bs, last int
		h        func() hash.Hash
		first    int // the number of the model's first block
	}
	shapes := []shape{{1, 1, md5.New, 0}, {3, 1, md5.New, 0}, {4, 4, sha256.New, 0}, {64, 63, md5.New, 0}}
	switch {
	case c.idx%64 == 5:
		shapes = append(shapes, shape{70001, 69999, md5.New, 0}, shape{65536, 1, sha256.New, 0})
	case c.idx%512 == 7:
		shapes = append(shapes, shape{2, 1, md5.New, 65535})
	default: // past the borders of the narrower integers
		shapes = append(shapes, shape{3, 2, md5.New, []int{255, 1<<16 - 1, 1<<31 - 1, 1<<32 - 2, 1 << 40}[c.idx%5]})
	}
	for _, sh := range shapes {
		block := func(b int) []byte {
			n := sh.bs
			if b == cs.N-1 {
				n = sh.last
			}
			d := bytes.Repeat([]byte{byte(b + 1)}, n)
			return d
		}
		for kind := 0; kind < 8; kind++ {
			sums := lookup{}
			var list []chunks.ChunkChecksum
			for _, b := range cs.Known {
				h := sh.h()
				h.Write(block(b))
				sums[sh.first+b] = h.Sum(nil)
			}
			if sh.first < 1<<20 {
				list = make([]chunks.ChunkChecksum, sh.first)
			}
			for b := 0; b < cs.N; b++ {
				list = append(list, chunks.ChunkChecksum{ChunkOffset: uint(sh.first + b), StrongChecksum: sums[sh.first+b]})
			}
			v := &filechecksum.HashVerifier{BlockSize: uint(sh.bs), Hash: sh.h(), BlockChecksumGetter: sums}
			if kind%2 == 1 && sh.first < 1<<20 {
				v.BlockChecksumGetter = chunks.StrongChecksumGetter(list)
			}
			for n, call := range cs.Calls {
				bad := map[int]bool{}
				for _, b := range call.Bad {
					bad[b] = true
				}
				var data []byte
				restore := func() {}
				for b := call.F; b <= call.L; b++ { // blocks of the model
					d := block(b)
					if bad[b] {
						// from kind 4 on, it is the list that holds another checksum:
						// one that differs in one place only, or is a part of the real
						// one, or longer than it
						if real := sums[sh.first+b]; kind >= 4 && real != nil {
							other := append([]byte{}, real...)
							switch kind {
							case 4:
								other[len(other)-1] ^= 1
							case 5:
								other[(c.idx+b+n)%len(other)] ^= 1 << (c.idx % 8)
							case 6:
								other = other[:1+(c.idx+n)%(len(other)-1)]
							case 7:
								other = append(other, real[0])
							}
							prev, b := restore, b
							set := func(sum []byte) {
								sums[sh.first+b] = sum
								if sh.first < 1<<20 {
									list[sh.first+b].StrongChecksum = sum
								}
							}
							set(other)
							restore = func() { set(real); prev() }
							data = append(data, d...)
							continue
						}
						switch {
						case kind == 0:
							d[len(d)-1] ^= 1
						case kind == 1: // another block's content
							for i := range d {
								d[i] = byte((b+1)%cs.N + 1)
							}
							if cs.N == 1 {
								d[0] = 99
							}
						case kind == 2 && b == call.L && len(d) > 1: // cut short
							d = d[:len(d)-1]
						case kind == 3 && b == call.L && len(d) < sh.bs: // too long
							d = append(d, byte(b+1))
						default:
							d[0] ^= 0x80
						}
					}
					data = append(data, d...)
				}
				c.Step()
				got := v.VerifyBlockRange(uint(sh.first+call.F), data)
				restore()
				if got != call.OK {
					c.Diverge("C10", "block size %d, last %d, numbered from %d, corruption %d: call %d on blocks %d-%d (bad %v, known %v) returned %v",
						sh.bs, sh.last, sh.first, kind, n, call.F, call.L, call.Bad, cs.Known, got)
					return
				}
			}
		}
	}
}

// ---------------------------------------------------------------- IndexFile.tla

type indexFileCase struct {
	N    int    `json:"n"`
	W    int    `json:"w"`
	S    int    `json:"s"`
	Cut  int    `json:"cut"`
	Kind string `json:"kind"`
	OK   bool   `json:"ok"`
	List int    `json:"list"`
}

// every entry of the model stands for r entries of the real list
func runIndexFileScaled(c *Ctx, cs *indexFileCase, r int) {
	ew := cs.W + cs.S
	cut := cs.Cut/ew*ew*r + cs.Cut%ew
	if cs.Cut%ew == 0 && cs.Cut == cs.N*ew {
		cut = cs.N * ew * r
	}
	data := make([]byte, cs.N*ew*r)
	for i := range data {
		data[i] = byte(i*37 + 11 + i>>8*3 + i>>16*5)
	}
	var e error = io.EOF
	if cs.Kind == "fail" {
		e = errRead
	}
	for _, mode := range []int{0, 2} {
		c.Step()
		v := fmt.Sprintf("%d entries of %d+%d bytes, %v after %d bytes, reader %d", cs.N*r, cs.W, cs.S, e, cut, mode)
		list, err := chunks.LoadChecksumsFromReader(newFrag(data[:cut], mode, e), cs.W, cs.S)
		if (err == nil) != cs.OK {
			c.Diverge("C17", "%s: error %v, expected success: %v", v, err, cs.OK)
			return
		}
		if err == nil && len(list) != cs.List*r {
			c.Diverge("C17", "%s: %d entries, expected %d", v, len(list), cs.List*r)
			return
		}
		for i, ch := range list {
			p := i * ew
			if err == nil && (ch.ChunkOffset != uint(i) || !bytes.Equal(ch.WeakChecksum, data[p:p+cs.W]) || !bytes.Equal(ch.StrongChecksum, data[p+cs.W:p+ew])) {
				c.Diverge("C17", "%s: entry %d is %+v", v, i, ch)
				return
			}
		}
	}
}

func runIndexFile(c *Ctx, raw json.RawMessage) {
	var cs indexFileCase
	mustJSON(raw, &cs)
	c.Expect("C17")
	switch {
	case cs.N == 0 || cs.N > 5:
	case c.idx%97 == 11 || cs.OK && cs.List == cs.N && c.idx%5 == 0:
		runIndexFileScaled(c, &cs, 70000)
	case c.idx%4 == 1:
		runIndexFileScaled(c, &cs, 150)
	}
	data := make([]byte, cs.N*(cs.W+cs.S))
	for i := range data {
		data[i] = byte(i*37 + 11)
	}
	errs := []error{io.EOF}
	if cs.Kind == "fail" {
		errs = []error{errRead, io.ErrUnexpectedEOF, errOnce}
	}
	for _, e := range errs {
		for mode := 0; mode < 5; mode++ {
			c.Step()
			v := fmt.Sprintf("%d entries of %d+%d bytes, %v after %d bytes, reader %d", cs.N, cs.W, cs.S, e, cs.Cut, mode)
			in := newFrag(data[:cs.Cut], mode, e)
			if e == errOnce {
				in = newFragOnce(data, cs.Cut, mode, e)
			}
			list, err := chunks.LoadChecksumsFromReader(in, cs.W, cs.S)
			if (err == nil) != cs.OK {
				c.Diverge("C17", "%s: error %v, expected success: %v", v, err, cs.OK)
				return
			}
			if err != nil {
				continue
			}
			if len(list) != cs.List {
				c.Diverge("C17", "%s: %d entries, expected %d", v, len(list), cs.List)
				return
			}
			for i, ch := range list {
				p := i * (cs.W + cs.S)
				if ch.ChunkOffset != uint(i) || !bytes.Equal(ch.WeakChecksum, data[p:p+cs.W]) || !bytes.Equal(ch.StrongChecksum, data[p+cs.W:p+cs.W+cs.S]) {
					c.Diverge("C17", "%s: entry %d is %+v", v, i, ch)
					return
				}
			}
		}
	}
}

var _ = errors.New
