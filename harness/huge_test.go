package vh

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"time"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/patcher"
)

// Cases of Scan.tla with blocks of one byte, where each byte of the model is a
// megabyte without repetition and the letter 0 in the local file stands for
// thousands of them: offsets within one scan pass 2^32

func init() {
	suites["scanhuge"] = &suite{run: func(c *Ctx, raw json.RawMessage) { runScanHuge(c, raw, letterSize, letterTimes) }}
	suites["scanbig"] = &suite{run: func(c *Ctx, raw json.RawMessage) { runScanHuge(c, raw, bigLetter, 2) }}
	suites["patchbig"] = &suite{run: func(c *Ctx, raw json.RawMessage) { runPatchHuge(c, raw, bigLetter, 2) }}
	suites["clihuge"] = &suite{run: runCliHuge}
	suites["patchhuge"] = &suite{run: func(c *Ctx, raw json.RawMessage) { runPatchHuge(c, raw, letterSize, letterTimes) }}
}

const (
	letterSize  = 1 << 20
	letterTimes = 4700 // the last of eight sections begins past 4 GB
	bigLetter   = 35_000_001
)

func letter(k, size int) []byte {
	b := make([]byte, size)
	rand.New(rand.NewSource(int64(1000 + k))).Read(b)
	return b
}

// bytes before the first letter, and letters, some of them repeated
type lettersFile struct {
	letterSize, letterTimes int
	lead    int64
	letters map[int][]byte
	runs    []int
	starts  []int64 // of each run, and the end
	pos     int64
}

func newLetters(size, times int, lead int64, text ...[]int) *lettersFile {
	f := &lettersFile{letterSize: size, letterTimes: times, lead: lead, letters: map[int][]byte{}}
	for _, t := range text {
		for _, k := range t {
			if f.letters[k] == nil {
				f.letters[k] = letter(k, size)
			}
		}
	}
	f.runs = text[0]
	at := lead
	for _, k := range f.runs {
		f.starts = append(f.starts, at)
		at += int64(f.times(k)) * int64(size)
	}
	f.starts = append(f.starts, at)
	return f
}

func (f *lettersFile) times(k int) int {
	if k == 0 {
		return f.letterTimes
	}
	return 1
}

func (f *lettersFile) size() int64 { return f.starts[len(f.runs)] }

func (f *lettersFile) ReadAt(p []byte, off int64) (n int, err error) {
	for n < len(p) {
		if off >= f.size() {
			return n, io.EOF
		}
		if off < f.lead {
			p[n] = byte(off + 1)
			n, off = n+1, off+1
			continue
		}
		r := 0
		for f.starts[r+1] <= off {
			r++
		}
		k := copy(p[n:], f.letters[f.runs[r]][(off-f.starts[r])%int64(f.letterSize):])
		n, off = n+k, off+int64(k)
	}
	return n, nil
}

func (f *lettersFile) Read(p []byte) (int, error) {
	n, err := f.ReadAt(p, f.pos)
	f.pos += int64(n)
	if n > 0 {
		err = nil
	}
	return n, err
}

func (f *lettersFile) Seek(off int64, w int) (int64, error) {
	switch w {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += f.size()
	}
	f.pos = off
	return off, nil
}

func (f *lettersFile) ref(letters []int) []byte {
	b := make([]byte, 0, len(letters)*f.letterSize)
	for _, k := range letters {
		b = append(b, f.letters[k]...)
	}
	return b
}

func runScanHuge(c *Ctx, raw json.RawMessage, letterSize, letterTimes int) {
	var cs scanCase
	mustJSON(raw, &cs)
	if cs.Bs != 1 {
		return
	}
	c.Expect("C04 C05")
	c.Step()
	f := newLetters(letterSize, letterTimes, 0, cs.Loc, cs.Ref)
	idx := buildIndex(letterSize, f.ref(cs.Ref))
	type hit struct {
		o int64
		b int
	}
	want := map[hit]bool{}
	for _, r := range cs.Out {
		for t := 0; t < f.times(cs.Loc[r.O]); t++ {
			for _, b := range r.B {
				want[hit{f.starts[r.O] + int64(t)*int64(letterSize), b}] = true
			}
		}
	}
	out, err, _, ended, n := scan(letterSize, idx, f, 7, 2*len(want)+100)
	what := fmt.Sprintf("reference %v, local %v, letters of %d bytes, 0 repeated %d times", cs.Ref, cs.Loc, letterSize, letterTimes)
	if err != nil || !ended {
		c.Diverge("C05", "%s: error %v, ended %v after %d results", what, err, ended, n)
		return
	}
	wrong := 0
results:
	for _, r := range out {
		for _, b := range r.B {
			h := hit{int64(r.O), b}
			if !want[h] {
				c.Diverge("C05", "%s: block %d is reported at offset %d", what, b, r.O)
				if wrong++; wrong == 3 {
					break results
				}
			}
			delete(want, h)
		}
	}
	for h := range want {
		c.Diverge("C04", "%s: %d matches are not reported, one is block %d at offset %d", what, len(want), h.b, h.o)
		return
	}
}

type recordOut struct{ b []byte }

func (o *recordOut) Write(p []byte) (int, error) {
	if len(o.b)+len(p) > 256<<20 {
		return 0, fmt.Errorf("far too much output")
	}
	o.b = append(o.b, p...)
	return len(p), nil
}

func runPatchHuge(c *Ctx, raw json.RawMessage, letterSize, letterTimes int) {
	var cs scanCase
	mustJSON(raw, &cs)
	if cs.Bs != 1 || len(cs.Ref) == 0 {
		return
	}
	c.Expect("C01 C03")
	c.Step()
	f := newLetters(letterSize, letterTimes, 5, cs.Loc, cs.Ref)
	ref := f.ref(cs.Ref)
	idx := buildIndex(letterSize, ref)
	g := filechecksum.NewFileChecksumGenerator(uint(letterSize))
	var list []chunks.ChunkChecksum
	for r := range g.StartChecksumGeneration(newFrag(ref, 0, io.EOF), 8, nil) {
		list = append(list, r.Checksums...)
	}
	found := map[int]bool{}
	for _, r := range cs.Out {
		for _, b := range r.B {
			found[b] = true
		}
	}
	src := &scriptSource{results: make(chan patcher.BlockReponse, 1), errs: make(chan error, 1)}
	src.answer = func(s *scriptSource, n int, sp patcher.MissingBlockSpan) error {
		if int(sp.EndBlock) >= len(cs.Ref) || sp.EndBlock < sp.StartBlock {
			return fmt.Errorf("no such blocks")
		}
		s.results <- patcher.BlockReponse{StartBlock: sp.StartBlock, Data: ref[int(sp.StartBlock)*letterSize : int(sp.EndBlock+1)*letterSize]}
		return nil
	}
	out := &recordOut{}
	r := &gosync.RSync{Input: f, Source: src, Output: out, Summary: &gosync.BasicSummary{
		ChecksumIndex: idx, ChecksumLookup: chunks.StrongChecksumGetter(list), BlockCount: uint(len(list)), BlockSize: uint(letterSize), FileSize: int64(len(ref))}}
	err := r.Patch()
	what := fmt.Sprintf("reference %v, local 5 bytes and %v, letters of %d bytes, 0 repeated %d times", cs.Ref, cs.Loc, letterSize, letterTimes)
	switch {
	case err != nil:
		c.Diverge("C01", "%s: error %v", what, err)
		return
	case string(out.b) != string(ref):
		c.Diverge("C01", "%s: success, but the output (%d bytes) is not the reference (%d bytes)", what, len(out.b), len(ref))
		return
	}
	next := 0
	for _, s := range src.reqs {
		for b := int(s.StartBlock); b <= int(s.EndBlock); b++ {
			for next < b && found[next] {
				next++
			}
			if b != next || found[b] {
				c.Diverge("C03", "%s: asked for %v", what, src.reqs)
				return
			}
			next++
		}
	}
	for ; next < len(cs.Ref); next++ {
		if !found[next] {
			c.Diverge("C03", "%s: asked only for %v", what, src.reqs)
			return
		}
	}
}

// the same with the command line tool; the letter 0 is one page and a hole

func holesFile(path string, letters []int, data map[int][]byte) {
	f, err := os.Create(path)
	must(err)
	at := int64(0)
	for _, k := range letters {
		if k == 0 {
			for t := 0; t < letterTimes; t++ {
				_, err = f.WriteAt(data[0][:4096], at)
				must(err)
				at += letterSize
			}
			continue
		}
		_, err = f.WriteAt(data[k], at)
		must(err)
		at += letterSize
	}
	must(f.Truncate(at))
	must(f.Close())
}

func runCliHuge(c *Ctx, raw json.RawMessage) {
	var cs struct {
		scanCase
		What string `json:"what"`
	}
	mustJSON(raw, &cs)
	if cs.Bs != 1 || len(cs.Ref) == 0 {
		return
	}
	c.Expect("C21 C26")
	c.Step()
	dir, err := os.MkdirTemp(c.Scratch, "clihuge")
	must(err)
	defer os.RemoveAll(dir)
	in := func(name string) string { return filepath.Join(dir, name) }
	data := map[int][]byte{0: make([]byte, letterSize)}
	copy(data[0][:4096], letter(0, letterSize))
	for _, k := range append(append([]int{}, cs.Ref...), cs.Loc...) {
		if k != 0 {
			data[k] = letter(k, letterSize)
		}
	}
	// of a file whose zeros occur "times" each
	index := func(times int) []byte {
		one := map[int][]byte{}
		for k, d := range data {
			one[k] = indexBytes(d, letterSize)[24:]
		}
		var list []byte
		n := 0
		for _, k := range cs.Ref {
			for t := 0; t < times && k == 0 || t < 1; t++ {
				list = append(list, one[k]...)
				n++
			}
		}
		b := indexBytes(nil, letterSize)
		binary.LittleEndian.PutUint64(b[12:], uint64(n)*letterSize)
		return append(b, list...)
	}
	small := func(name string, text []int) {
		b := []byte{}
		for _, k := range text {
			b = append(b, data[k]...)
		}
		must(os.WriteFile(in(name), b, 0o644))
	}
	found := map[int]bool{}
	for _, r := range cs.Out {
		for _, b := range r.B {
			found[b] = true
		}
	}
	name := fmt.Sprintf("%s: reference %v, local %v, letters of a megabyte, 0 repeated %d times in one of them", cs.What, cs.Ref, cs.Loc, letterTimes)
	bigRef := cs.What == "build" || cs.What == "diffref"
	times := 1
	if bigRef {
		times = letterTimes
		small("local", cs.Loc)
	} else {
		small("ref", cs.Ref)
		holesFile(in("local"), cs.Loc, data)
	}
	switch cs.What {
	case "build":
		holesFile(in("data.bin"), cs.Ref, data)
		rc, text := gosyncSlow(5*time.Minute, dir, "build", fmt.Sprint("--blocksize=", letterSize), "data.bin")
		if got, err := os.ReadFile(in("data.gosync")); rc != 0 || !bytes.Equal(got, index(times)) {
			c.Diverge("C21", "%s: exit status %d, the index (%d bytes, %v) is not the documented one (%d bytes)\n%s", name, rc, len(got), err, len(index(times)), text)
		}
	case "patch":
		must(os.WriteFile(in("i.gosync"), index(times), 0o644))
		ref, err := os.ReadFile(in("ref"))
		must(err)
		srv := rangeServer(ref, 0, 0, 0)
		defer srv.Close()
		rc, text := gosyncSlow(5*time.Minute, dir, "patch", "local", "i.gosync", srv.URL+"/data.bin", "out")
		if got, err := os.ReadFile(in("out")); rc != 0 || !bytes.Equal(got, ref) {
			c.Diverge("C21", "%s: exit status %d, the output (%d bytes, %v) is not the reference (%d bytes)\n%s", name, rc, len(got), err, len(ref), text)
		}
	default:
		must(os.WriteFile(in("i.gosync"), index(times), 0o644))
		rc, text := gosyncSlow(5*time.Minute, dir, "diff", "local", "i.gosync")
		if rc != 0 {
			c.Diverge("C21 C26", "%s: exit status %d\n%s", name, rc, text)
			return
		}
		want := map[string]int64{"blocksize": letterSize}
		for b, k := range cs.Ref {
			n := int64(1)
			if k == 0 {
				n = int64(times)
			}
			want["blocks"] += n
			want["entries"] += n
			if found[b] {
				want["matched"] += n
				want["matchedB"] += n * letterSize
			} else {
				want["missingB"] += n * letterSize
			}
		}
		for k, v := range want {
			m := compareLabels[k].FindStringSubmatch(text)
			if m != nil && m[1] != fmt.Sprint(v) {
				c.Diverge("C26", "%s: %s is %s, expected %d", name, k, m[1], v)
				if k == "missingB" || k == "matched" {
					c.Diverge("C21", "%s: %s is %s, expected %d", name, k, m[1], v)
				}
			}
		}
	}
}
